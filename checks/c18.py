"""C18: no input crashes, hangs or corrupts the assembler (sanitized builds)."""
import itertools, re
from explore import seqs
from run import Check, TIER

DEEP = TIER == "thorough"
OUTS = ["o", "l", "s", "e"]
FMTS = [[], ["-D"], ["-C"], ["-S"], ["-H"]]
RUNTIME = re.compile(r"(AddressSanitizer|MemorySanitizer|runtime error|assert|SUMMARY)[^\n]*")


def verdict(r, outs=OUTS):
    """None, or why the run was not an orderly success or failure."""
    if r.kind != 0 or r.code not in (0, 1):
        m = RUNTIME.search(r.err)
        return r.status() + (" " + m.group(0) if m else " " + r.err[-200:])
    if r.code == 1 and not r.err.strip():
        return "exit 1 without a diagnostic"
    if r.code == 0 and any(o not in r.files for o in outs):
        return "exit 0 without an output file"
    return None


WANT = "exit status 0, or 1 with a diagnostic, within the time limit"


def one(w, args, files, outs=OUTS, modes=("asan", "msan"), what="", timeout=8000):
    """A single execution per mode, judged."""
    for m in modes:
        r = w.run(args, files, outs, mode=m, timeout=timeout)
        w.stats.transitions += 1
        x = verdict(r, outs)
        if x:
            def again():
                y = verdict(w.run(args, files, outs, mode=m, timeout=timeout), outs)
                return y is not None
            src = next((c for c in files.values() if not isinstance(c, tuple)), "")
            src = src.decode("latin-1") if isinstance(src, bytes) else src
            w.bad("%s (%s): %r %s" % (what, m, src[:120], " ".join(a if isinstance(a, str) else repr(a) for a in args)[:100]), args, files, WANT, x, recheck=again)
        w.stats.outcome(("%s " % m) + r.status())
        w.stats.state((what, r.code, r.err[:300], r.files.get("o"), r.files.get("l", b"")[:200]))
    if w.stats.traces % 9973 == 0:
        w.stats.sample("%s: %r" % (what, list(files.items())[0][1][:80]))


# --- many cases per execution: each in a file of its own, included by one program

PRE = "fwdm\tmacro\n fcb \\1\n endm\nfoo equ 5\nbar fcc /b/\nflt equ 2.5\nstr equ /ab/\n1 nop\nm macro\n fcb \\1+\\{2}\n fcc \"&1&{2}\",/a\\2x/\n endm\ndef set 1\n"
POST = "\n org $7f00\n1 nop\nlater equ 3\n export foo\n export fwdm\n"


def batch(w, args, cases, modes, what):
    """cases: [(text of one include file)].  Cases that cause errors are dropped
    and the rest is assembled again until it succeeds: so every case is
    executed, and each one that is in order goes through every pass and output."""
    live = list(range(len(cases)))
    for rnd in range(8):
        main = PRE + "".join(" org $%x\n include \"f%d\"\n" % (0x1000 + 0x100 * (k % 64), i) for k, i in enumerate(live)) + POST
        files = {"a.s": main}
        for i in live:
            files["f%d" % i] = cases[i].replace("\1", "z%d" % i)
        a = args + ["-o", "o", "-l", "l", "-s", "s", "-E", "e", "a.s"]
        for m in modes:
            r = w.run(a, files, OUTS, mode=m, timeout=15000)
            x = verdict(r)
            if x:
                bisect(w, args, [cases[i] for i in live], m, what)
        w.stats.outcome("batch " + r.status())
        if rnd == 0:
            w.stats.transitions += len(cases)
            for i in live:
                w.stats.state(cases[i])
        if r.code == 0:
            w.stats.info["in order"] = w.stats.info.get("in order", 0) + len(live)
            return
        blamed = {int(n) for n in re.findall(r"(?m)^(?:\w[\w ]*: )?(?:f|[mnq]z)(\d+):", r.err)}
        # errors without a case's name (an unfinished macro, a symbol defined twice by others)
        if not blamed & set(live):
            w.stats.outcome("batch split")
            if len(live) == 1:
                return
            h = len(live) // 2
            batch(w, args, [cases[i] for i in live[:h]], modes, what)
            batch(w, args, [cases[i] for i in live[h:]], modes, what)
            return
        live = [i for i in live if i not in blamed]
        if not live:
            return


def bisect(w, args, cases, m, what):
    """Find which case of a failing batch it is (or report all of it)."""
    a = args + ["-o", "o", "-l", "l", "-s", "s", "-E", "e", "a.s"]

    def fails(cs):
        files = {"a.s": PRE + "".join(" org $%x\n include \"f%d\"\n" % (0x1000 + 0x100 * (k % 64), k) for k in range(len(cs))) + POST}
        files.update(("f%d" % k, c.replace("\1", "z%d" % k)) for k, c in enumerate(cs))
        r = w.run(a, files, OUTS, mode=m, timeout=15000)
        return verdict(r), files
    cur, step = cases, True
    while len(cur) > 1 and step:
        step = False
        h = len(cur) // 2
        for part in (cur[:h], cur[h:]):
            if fails(part)[0]:
                cur, step = part, True
                break
    x, files = fails(cur)
    w.bad("%s (%s): %s" % (what, m, " | ".join(repr(c) for c in cur[:4])[:300]), a, files, WANT, x or "not reproduced", recheck=lambda: fails(cur)[0] is not None)


def flush(w, it, size, modes, what):
    """Distribute fixed groups of cases among the workers."""
    def groups():
        it_ = iter(it)
        while True:
            g = list(itertools.islice(it_, size))
            if not g:
                return
            yield g
    for n, g in w.mine(enumerate(groups())):
        batch(w, ["-3"] + FMTS[n % 5] + (["-v"] if n % 2 else ["-q"]), g, modes, what)


TOK = ["1", "$ff", "%101", "@17", "0x", "$", "99999999999999999999", "1.5", ".5", "1.", "'a", "'", "foo", "undef", "later", "flt", "str", "a", "x", "d", "pcr", "*", "(", ")", "[", "]", ",", "+", "-", "++", "--", "/", "%", "<", ">", "<<", ">>", "&", "&&",
       "||", "|", "^", "~", "!", "==", "!=", "<=", ":", "?", "#", "\"", "/s/", "\"t\"", "\\", "\\1", "\\{2}", "&{1}", "1b", "1f", "9b", ";", " ", "{", "@", "\\{99999999999999999999}"]
CTX = [" fcb %s", "lab{n} equ %s", "lab{n} set %s", " lda %s", " ldx %s,x", " leax [%s]", " if %s\n nop\n endif", " if 0\n elsif %s\n nop\n endif", " fcc \"%s\"", " pshs %s", " tfr %s,y", " tim #1,%s", " org %s", " put %s", " rmb %s", " align %s",
       " align 4,%s", " fill 1,%s", " fill %s,2", " rzb %s", " setdp %s", " section %s", "q{n} macro\n fcb \\1+\\{2}\n fcc \"&1&{2}\",/a\\2x/\n endm\n q{n} %s", "q{n} macro\n fcb \\1+\\{2}\n endm\n q{n} 1,%s", "q{n} macro\nl{n}\\1_\\{2} fcc \"\\1x&{2}\\\"&1\"\n fcb l{n}\\1_\\{2}\n section \"s&1\"\n if \\1\n endif\n endm\n q{n} %s", " export %s", " include %s", " includebin %s", " end %s\n nop", " fdb %s", " fqb %s", " fcs %s", " fcv %s", " opt %s", " band a,%s,1,$20", " bra %s", "%s", "%s nop", "x{n}%s nop",
       " %s", " nop%s", " %s foo", "m{n} macro\n fcb %s\n endm\n m{n} 1,2", "n{n} macro\n%s\n endm\n n{n} 3,4", " tfm %s,y+", " bitmd %s", " lbsr %s,pcr", " fcb 0,%s,0", " ldq #%s", " lda <%s", " fcb -(%s)", " fcc /a/,%s"]
CTX = [c.replace("%s", "\0").replace("{n}", "\1") for c in CTX]


DEEP3 = [CTX[0]] + [c for c in CTX if c in (" lda \0", " leax [\0]", " if \0\n nop\n endif", " fcc \"\0\"", " pshs \0", "\0", " \0", " tfr \0,y", " ldq #\0")]


def size(c):
    # errors of these have no location, and are told apart by splitting
    return 6 if c.startswith(("lab", " fill 1", " export", "n\1")) else 60


def tokens(w, arg):
    """Every sequence of up to two tokens in every context."""
    for c in CTX:
        flush(w, (c.replace("\0", "".join(s)) + "\n" for s in seqs(TOK, 2, 0)), size(c), ("asan", "msan"), "tokens")


def tokens3(w, arg):
    """Every sequence of three tokens."""
    for c in DEEP3 if DEEP else CTX[:1]:
        flush(w, (c.replace("\0", "".join(s)) + "\n" for s in itertools.product(TOK, repeat=3)), size(c), ("asan",), "three tokens")


# --- sequences of directives, well and badly ordered

LINES = [" if 1", " if 0", " if undef", " elsif 1", " else", " endif", "lab nop", "lab equ later+1", "lab set 2", "lab", "mm macro", "lab macro", " endm", " mm 1,\"s\"", " mm", " fcb \\1,\\2", "\\1 fcb 2", "&{2}x nop", " fcc /&1\\2/", " mm \\2,\\1", " lab", " nop",
         " ldx later,pcr", " bra lab", " lda <later", " org later", " org -1", " put later", " rmb 1", " align 8", " section 'x'", " section \"y\"", " code", " data", " include \"b.s\"", " include \"a.s\"", " includebin \"b.s\"", " end", " end lab", " export lab", " export mm", " export undef",
         " setdp later", " fill 1,later", " fdb 1b,1f", "1 nop", "! nop", " fcb <,>", " error", " syntax )(", "later equ 7", " fcb mm", " fcc \"unterminated"]
B = {"b.s": " nop\n if 1\nfrom nop\n mm 7\n"}


def directives(w, arg):
    """Every pair (thorough: triple) of lines in whole programs, and after a macro definition."""
    n = 0
    for s in w.mine(seqs(LINES, 3 if DEEP else 2, 0)):
        n += 1
        for pre, post in (("", ""), ("mm macro\n fcb \\1\n endm\n", "later equ 3\n")) if len(s) < 3 else (("", ""),):
            f = {"a.s": pre + "\n".join(s) + "\n" + post}
            f.update(B)
            one(w, ["-3", "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + FMTS[n % 5] + ["a.s"], f, modes=("asan", "msan") if len(s) < 3 else ("asan",), what="directives")


def directives3(w, arg):
    """Triples of lines on the ordinary build (allocator checks on)."""
    n = 0
    for s in w.mine(itertools.product(LINES, repeat=3)):
        n += 1
        f = {"a.s": "mm macro\n fcb \\1\n endm\n" * (n % 2) + "\n".join(s) + "\n"}
        f.update(B)
        one(w, ["-3", "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + FMTS[n % 5] + ["a.s"], f, modes=("plain",), what="directives")


OPTS = [["-B"], ["-D"], ["-C"], ["-S"], ["-H"], ["-e", "foo"], ["-e", ""], ["-e", "undef"], ["-e", "$"], ["-e", "$ffffffffffffffffffff"], ["-e"], ["-8"], ["-9"], ["-3"], ["-d", "x=1"], ["-d", ""], ["-d", "="], ["-d", "=1"], ["-d", "foo=2"], ["-d", "x=="], ["-d"], ["-d", "q"], ["-P", "1"], ["-P", "2"],
        ["-P", "255"], ["-P", "x"], ["-P", ""], ["-P"], ["-o", "o"], ["-o", ""], ["-o", "."], ["-o"], ["-l", "l"], ["-l", ""], ["-l"], ["-E", "e"], ["-E", "a.s"], ["-s", "s"], ["-s", "/"], ["-q"], ["-v"], ["-v", "-v", "-v"], ["--setdp", "1"], ["--setdp", ""], ["--setdp=$"], ["--setdp", "-1"], ["--setdp"],
        ["--help"], ["--version"], ["--bogus"], ["-Z"], ["--"], ["-"], [""], ["nofile"], ["a.s"], ["b.s"], ["--exec="], ["--define=" + "y" * 5000 + "=1"], ["-" + "3" * 2000], ["--listing"], ["d"]]


def options(w, arg):
    """Every pair (thorough: triple of a part) of options, with odd, empty and missing values."""
    f = {"a.s": "foo lda <foo\n export foo\n fcb 1\n ldx foo+0,pcr\n", "b.s": " fdb later,1\nlater", "d": (1, "")}
    for n, s in w.mine(enumerate(itertools.chain(seqs(OPTS, 2, 0), itertools.product(OPTS[:42], repeat=3) if DEEP else ()))):
        a = [x for o in s for x in o]
        for args in ([a + ["a.s"]] if len(s) == 3 else [a + ["a.s"], ["a.s"] + a, a]):
            one(w, args, f, outs=[], modes=("asan", "msan") if len(s) < 3 else ("asan",), what="options")


# --- bytes

PROG = " if 1\nlab equ \"s\\1&1\"\nm macro\n fcb '\\1,/&1/\n endm\n m 1,\"x\"\n1 lda [5,x] ; c\n* c\n fcc /a\\n/\n endif\n bra 1b\n include \"b.s\"\n"


def bytes_(w, arg):
    """Every byte value put before, in place of and instead of every pair at each position."""
    def gen():
        for i in range(len(PROG) + 1):
            yield PROG[:i]
            yield PROG[:i] + PROG[i + 1:]
            for j in (2, 3, 5):
                yield PROG[:i] + PROG[i + j:]
            for c in range(256):
                yield PROG[:i] + chr(c) + PROG[i:]
                yield PROG[:i] + chr(c) + PROG[i + 1:]
            if DEEP:
                for c in range(256):
                    for d in "\n\"\\":
                        yield PROG[:i] + chr(c) + d + PROG[i + 1:]
    for n, t in w.mine(enumerate(gen())):
        one(w, ["-3", "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + FMTS[n % 5] + ["a.s"], {"a.s": t, "b.s": " nop\n"}, modes=(("asan", "msan")[n % 2],), what="bytes")


# --- long, deep and many

def shapes(n):
    """(name, program) of size n."""
    yield "identifier", "a" * n + " equ 1\n fcb " + "a" * n + "\n export " + "a" * n + "\n"
    yield "opcode", " " + "b" * n + "\n"
    yield "string", " fcc \"" + "c" * n + "\"\nl equ \"" + "c" * n + "\"\n export l\n"
    yield "escapes", " fcc \"" + "\\n" * n + "\"\n"
    yield "integer", " fcb " + "9" * n + "\n"
    yield "hex", " fcb $" + "f" * n + "\n"
    yield "float", " fcb " + "9" * n + ".5\nx1 equ ." + "3" * n + "\n export x1\n"
    yield "big float", "x1 equ 1" + "0" * n + ".\n export x1\n fcb x1\n"
    yield "parentheses", " fcb " + "(" * n + "1" + ")" * n + "\n"
    yield "open parentheses", " fcb " + "(" * n + "\n"
    yield "unary", " fcb " + "-" * n + "1\n"
    yield "complements", "l equ " + "~ " * n + "1\n export l\n"
    yield "binary", "l equ 1" + "+1" * n + "\n export l\n"
    yield "ternary", " fcb " + "1?2:" * n + "3\n"
    yield "ternary middle", " fcb " + "1?" * n + "3" + ":4" * n + "\n"
    yield "brackets", " lda " + "[" * n + "5" + "]" * n + "\n"
    yield "arguments", " fcb 1" + ",2" * n + "\n"
    yield "commas", " fcb " + "," * n + "\n"
    yield "registers", " pshs a" + ",b" * n + "\n"
    yield "lines", " nop\n" * n
    yield "blank", "\n" * n
    yield "labels", "".join("l%d equ %d\n" % (i, i) for i in range(n))
    yield "local labels", "1 fdb 1b,1f\n" * n + "1\n"
    yield "open if", " if 1\n" * n
    yield "nested if", " if 1\n" * n + " nop\n" + " endif\n" * n
    yield "excluded if", " if 0\n" * n + " nop\n" + " endif\n" * n
    yield "elsif", " if 0\n" + " elsif 0\n" * n + " endif\n"
    yield "endif", " endif\n" * n
    yield "open macro", "".join("m%d macro\n" % i for i in range(n))
    yield "nested macro", "".join("m%d macro\n" % i for i in range(n)) + " endm\n" * n
    yield "macros", "".join("m%d macro\n fcb \\1\n endm\n m%d %d\n" % (i, i, i) for i in range(n))
    yield "chain", "".join("l%d equ l%d+1\n" % (i, i + 1) for i in range(n)) + "l%d equ 0\n fcb l0\n" % n
    yield "backward chain", "l0 equ 0\n" + "".join("l%d equ l%d+1\n" % (i + 1, i) for i in range(n)) + " fcb l%d\n export l%d\n" % (n, n)
    yield "cycle", "".join("l%d equ l%d+1\n" % (i, i + 1) for i in range(n)) + "l%d equ l0\n fcb l0\n" % n
    yield "macro chain", "".join("m%d macro\n m%d \\1+1\n endm\n" % (i, i + 1) for i in range(n)) + "m%d macro\n fcb \\1\n endm\n m0 1\n" % n
    yield "macro arguments", "m macro\n fcb \\{%d}\n endm\n m 0%s\n" % (n, ",1" * (n - 1))
    yield "macro growth", "m macro\n fcb \\1\n endm\n m \"" + "x" * n + "\"\n"
    yield "pasted", "m macro\nl" + "\\1" * n + " equ 1\n fcb l" + "\\1" * n + "\n endm\n m 5\n"
    yield "interpolated", "m macro\n fcc \"" + "&1" * min(n, 3000) + "\"\n endm\n m \"abc\"\n"
    yield "sections", "".join(" section \"s%d\"\n nop\n" % i for i in range(n))
    yield "section name", " section \"" + "s" * n + "\"\n nop\n"
    yield "orgs", "".join(" org $%x\n nop\n" % (i * 3 & 0xffff) for i in range(n))
    yield "downward orgs", "".join(" org $%x\n nop\n" % (0xf000 - i * 3 & 0xffff) for i in range(n))
    yield "exports", "l\n" + " export l\n" * n
    yield "include name", " include \"" + "f" * n + "\"\n"
    yield "includebin name", " includebin \"" + "f" * n + "\"\n"
    yield "comment", "; " + "x" * n + "\n*" + "y" * n + "\n nop ;" + "z" * n + "\n"
    yield "white space", "l" + " " * n + "nop" + "\t" * n + "\n" + " " * n + "\n fcb " + " " * n + "1\n"
    yield "no newline", " nop" + " " * n
    yield "text", "x" * n
    yield "backslashes", " fcc \"" + "\\" * n + "\"\n"
    yield "quotes", " fcc " + "\"" * n + "\n"
    yield "nul", "\0" * n
    yield "carriage returns", "\r" * n + "\n nop\r\r\n"
    yield "high bytes", " fcc \"" + "\xff" * n + "\"\n"
    yield "errors", " bogus\n" * n
    yield "rmb", " rmb %d\n nop\n" % n
    yield "rzb", " rzb %d\n" % n
    yield "align", " nop\n align %d\n" % n
    yield "fill", " fill 1,%d\n" % n
    yield "org", " org %d\n nop\n" % n
    yield "put", " put %d\n nop\n" % n
    yield "multiply", " fcb 1" + "*3" * n + "\n"
    yield "shift", " fcb 1<<%d,1>>%d\n" % (min(n, 63), min(n, 63))
    yield "growing forward", "".join(" lbra l%d\n leax l%d,pcr\n" % (i, i) for i in range(n)) + "".join("l%d nop\n" % i for i in range(n))
    yield "two alternating", "l set 1\n" + " if l&1\nl set l+1\n else\nl set l+3\n endif\n" * n


SIZES = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 9998, 9999, 10000, 10001, 16383, 16384, 16385, 20000]
HUGE = [30000, 32768, 40000, 65535, 65536, 100000]
# quadratic in the size, so limited
SLOW = {"chain": 300, "cycle": 300, "backward chain": 2000, "pasted": 2000, "local labels": 2000, "sections": 2000, "macro chain": 300, "growing forward": 1000, "labels": 5000, "orgs": 5000, "downward orgs": 5000, "macros": 3000, "errors": 5000, "nested macro": 2000, "open macro": 3000, "exports": 4000, "commas": 20000, "arguments": 20000, "registers": 20000, "macro arguments": 20000, "nested if": 6000,
        "two alternating": 1000, "text": 70000}


def long_(w, arg):
    todo = [(n, k) for n in SIZES + (HUGE if DEEP else HUGE[3:5]) for k in range(sum(1 for _ in shapes(1)))]
    for n, k in w.mine(todo):
        name, text = next(itertools.islice(shapes(n), k, None))
        if n > SLOW.get(name, 1 << 30):
            continue
        if n > 20000 and name in ("arguments", "lines", "binary", "unary", "complements", "parentheses") and not DEEP:
            continue
        for m in (("asan", "msan") if n <= 4097 or DEEP else ("asan",)):
            one(w, ["-3", "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + FMTS[(n + k) % 5] + ["a.s"], {"a.s": text}, modes=(m,), what="%s x %d" % (name, n), timeout=30000)


VALUES = sorted({s * (1 << b) + d for b in (0, 3, 4, 7, 8, 15, 16, 17, 20, 31, 32, 33, 62, 63) for s in (1, -1) for d in (-2, -1, 0, 1, 2)})
USES = [" fcb \0", " fdb \0", " fqb \0", " lda \0", " lda <\0", " lda #\0", " ldx #\0", " ldq #\0", " lda \0,x", " lda <<\0,x", " lda [\0,x]", " lda [\0]", " lda \0,pcr", " lda \0,w", " bra \0", " lbra \0", " rmb \0", " rzb \0", " fill 1,\0", " fill \0,1", " align \0", " align 16,\0", " align \0,\0", " org \0\n nop", " put \0\n nop", " org \0\n align 3\n nop",
        " org \0\n rmb \0\n nop", " setdp \0\n lda 1", " end \0", "l equ \0\n export l\n fcb l", " if \0\n nop\n endif", " fcb 1<<\0,1>>\0", " fcb 7/\0,7%\0", " fcb (0-1-$7fffffffffffffff)/\0", " fcb (0-1-$7fffffffffffffff)%\0", " fcb \0*\0,\0+\0,\0-\0", " band a,\0,1,$20", " band a,1,1,\0", " bitmd #\0", " tim #\0,$20", " tfr a,\0",
        "m macro\n fcb \\{2}\n endm\n m \0,\0", " fcb -\0,~\0,!\0", " fcs \0", " fcn \0", " fcv \0", " fcb \0.5", " section \0\n nop", " fcb \0b,\0f", "\0 nop", " include \0", " includebin \0", " export \0"]


def values(w, arg):
    """Every operand position that takes a number x values at every power of two boundary."""
    fl = ["1e", "0.0", "-0.5", "1000000000000000000000.0", "-1000000000000000000000.0", "(1.0/0)", "(0.0/0)", "9223372036854775807.0", "-9223372036854775808.0", "1" + "0" * 400 + ".0", "." + "0" * 400 + "1", "\"\"", "\"abcdefghi\"", "'\xff", "\"\xff\xff\"", "undef", "later", "self", "a", "(", "*", "-1", "\"%d%s%n\""]

    def gen():
        for u in USES:
            for v in [str(v) if v >= 0 else "(%d)" % v for v in VALUES] + fl:
                yield u.replace("\0", v), 0
    for n, (t, _) in w.mine(enumerate(gen())):
        t = " org $100\nself nop\n" + t + "\nlater equ 3\n"
        one(w, ["-3", "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + FMTS[n % 5] + ["a.s"], {"a.s": t}, modes=("asan", "msan"), what="values", timeout=20000)


LOOPS = {"macro itself": "m macro\n m\n endm\n m\n", "macro itself twice": "m macro\n m\n m\n endm\n m\n", "two macros": "m macro\n n\n n\n endm\nn macro\n m\n m\n endm\n m\n", "include itself": " include \"a.s\"\n", "include twice": " include \"a.s\"\n include \"a.s\"\n nop\n", "three includes": " include \"a.s\"\n include \"b.s\"\n include \"a.s\"\n",
         "macro include": "m macro\n include \"a.s\"\n m\n endm\n m\n m\n", "macro defines itself": "m macro\nm macro\n nop\n endm\n m\n endm\n m\n", "oscillating": "l equ k+1\nk equ l+1\n lda <l\n", "size oscillates": " org $100-2\n lda l\nl equ $200-k\nk\n", "set loop": "l set l+1\n fcb l\n rmb l&1\nk\n fcb k\n",
         "if oscillates": " if l>$10\n nop\n else\n rmb $20\n endif\nl\n", "align loop": " align l\nl equ *+1\n", "org loop": " org l+1\nl nop\n", "rmb loop": " rmb l\nl nop\n", "rzb loop": " rzb l+1\nl nop\n", "put loop": " put l+1\nl nop\n", "self": "l equ l\n fcb l\n", "section loop": " section \"x\"\n rmb k\n section \"y\"\nk nop\n",
         "pcr oscillates": " leax k,pcr\n rmb 126\n leax j,pcr\nk rmb 126\nj\n", "include by loop": "l equ \"b.s\"\n include l\n", "includebin itself": " includebin \"a.s\"\n", "macro undefined inside": "m macro\n \\1\n endm\n m m\n", "deep macro arguments": "m macro\n m \\1,\\1\n endm\n m \"aaaaaaaaaa\"\n",
         "doubling": "m macro\n m \"&1&1&1\"\n endm\n m \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"\n", "doubling expression": "m macro\n m (\\1)*(\\1)*(\\1)*(\\1)\n endm\n m l\nl equ 3\n", "end in macro": "m macro\n end\n nop\n endm\n m\n m\n", "macro in if": " if 0\nm macro\n endif\n endm\n m\n",
         "exponential": "l0 equ l1+l1\n" + "".join("l%d equ l%d+l%d\n" % (i, i + 1, i + 1) for i in range(1, 40)) + "l40 equ 1\n fcb l0\n", "exponential set": "l set 1\n" + "l set l+l\n" * 100 + " fcb l\n", "exponential late": "".join("l%d equ l%d+l%d\n" % (i, i - 1, i - 1) for i in range(40, 0, -1)) + "l0 equ q\nq equ 1\n fcb l40\n"}
FILESETS = {"missing include": ({"a.s": " include \"none\"\n nop\n"}, ["a.s"]), "missing main": ({}, ["none"]), "no file": ({}, []), "empty": ({"a.s": ""}, ["a.s"]), "directory": ({"a.s": (1, "")}, ["a.s"]), "include directory": ({"a.s": " include \"d\"\n", "d": (1, "")}, ["a.s"]),
            "includebin directory": ({"a.s": " includebin \"d\"\n", "d": (1, "")}, ["a.s"]), "missing includebin": ({"a.s": " includebin \"none\"\n"}, ["a.s"]), "empty includebin": ({"a.s": " includebin \"b\"\n", "b": ""}, ["a.s"]), "empty include": ({"a.s": " include \"b\"\n", "b": ""}, ["a.s"]),
            "device": ({"a.s": " include \"/dev/null\"\n includebin \"/dev/null\"\n"}, ["a.s"]), "dangling": ({"a.s": (2, "nowhere")}, ["a.s"]), "itself": ({"a.s": (2, "a.s")}, ["a.s"]), "many": ({"f%d" % i: " nop\n" for i in range(60)}, ["f%d" % i for i in range(60)]), "twice": ({"a.s": "l%d nop\n"}, ["a.s", "a.s"]),
            "big includebin": ({"a.s": " includebin \"b\"\n", "b": bytes(70000)}, ["a.s"]), "bigger": ({"a.s": " includebin \"b\"\n includebin \"b\"\n", "b": bytes(60000)}, ["a.s"]), "binary source": ({"a.s": bytes(range(256)) * 20}, ["a.s"])}


def loops(w, arg):
    """Recursion, non-convergence and odd files with every number of passes."""
    todo = [(k, {"a.s": t, "b.s": " include \"a.s\"\n"}, ["a.s"]) for k, t in LOOPS.items()] + [(k, f, m) for k, (f, m) in FILESETS.items()]
    for (k, f, m), p in w.mine(itertools.product(todo, list(range(1, 40)) + [100, 254, 255] if DEEP else [1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 100, 255])):
        for fmt in FMTS:
            one(w, ["-P", str(p), "-3", "-o", "o", "-l", "l", "-s", "s", "-E", "e"] + fmt + m, f, modes=("asan", "msan"), what="%s, %d passes" % (k, p), timeout=30000)


def main():
    c = Check("C18", modes=("plain", "asan", "msan"))
    c.bounds = ["every sequence of up to 2 of %d tokens in %d contexts (address, undefined and memory sanitizers), up to 3 in %s" % (len(TOK), len(CTX), "%d of them" % len(DEEP3) if DEEP else "an FCB argument"),
                "every program of up to %d of %d lines, balanced or not, under sanitizers%s" % (3 if DEEP else 2, len(LINES), "" if DEEP else "; of 3 on the ordinary build"), "every pair%s of %d options with valid, odd, empty and missing values" % (" (and triple of 42)" if DEEP else "", len(OPTS)),
                "every byte value inserted and substituted at each position of a program, every prefix and deletion", "%d kinds of long, deep or numerous construct x %d sizes" % (sum(1 for _ in shapes(1)), len(SIZES) + len(HUGE)), "%d operand positions x %d boundary values" % (len(USES), len(VALUES) + 24), "%d recursive or non-converging programs and file sets x pass limits x 5 formats" % (len(LOOPS) + len(FILESETS))]
    c.assumptions = ["invalid accesses are those gcc's address and undefined-behaviour and clang's memory sanitizers detect; leaks and integer overflow in expression arithmetic are not counted", "time limits: seconds where milliseconds are expected",
                     "quadratic time for constructs of more than some thousand parts is not counted as a hang"]
    import os, time
    for f in (loops, values, long_, directives, options, bytes_, tokens, tokens3) + (() if DEEP else (directives3,)):
        if os.environ.get("VERIF_PARTS") and f.__name__ not in os.environ["VERIF_PARTS"].split(","):
            continue
        t = time.time()
        c.explore(f)
        if os.environ.get("VERIF_TIMES"):
            print(f.__name__, round(time.time() - t, 1), c.stats.traces, len(c.violations))
    c.finish()
