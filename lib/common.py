"""What most checks share: run the real assembler on an abstract program and compare
everything observable with the reference assembler's outcome."""
import re
import formats as F
import isa as ISA
import refasm as RA

FMT = {"bin": "-B", "dragondos": "-D", "coco": "-C", "srec": "-S", "hex": "-H"}


def parse_symbols(t):
    """{name: value} of a symbols or exports file without macros."""
    d = {}
    for l in t.split("\n"):
        if not l:
            continue
        f = l.split("\t")
        if len(f) < 3 or f[1] != "equ":
            raise F.Bad("symbols line " + repr(l))
        if f[0] in d:
            raise F.Bad("symbol listed twice: " + f[0])
        d[f[0]] = parse_value("\t".join(f[2:]))
    return d


REGRE = re.compile(r"^(-{0,2})([a-z]+)([+]{0,2}|-)$", re.I)


def parse_value(v):
    if re.match(r"^-?\d+$", v):
        return int(v)
    if re.match(r"^-?\d*\.\d*$", v):
        return float(v)
    if len(v) >= 2 and v[0] == "/" and v[-1] == "/":
        o, i = [], 1
        v = v[1:-1]
        i = 0
        while i < len(v):
            if v[i] == "\\" and i + 1 < len(v):
                i += 1
                o.append({"n": "\n", "r": "\r"}.get(v[i], v[i]))
            else:
                o.append(v[i])
            i += 1
        return "".join(o)
    if v == "(-9223372036854775807 - 1)":
        return -1 << 63
    if v == "(1.0 / 0)":
        return float("inf")
    if v == "(-1.0 / 0)":
        return float("-inf")
    m = REGRE.match(v)
    if m:
        mod = m.group(1) or {"-": "p-"}.get(m.group(3), m.group(3))
        return ("R", m.group(2).lower(), mod)
    raise F.Bad("symbol value " + repr(v))


def isa_args(isa):
    return ["-3"] if isa == 3 else []


def opt_args(kw):
    a = list(isa_args(kw.get("isa", 9)))
    for n, v in kw.get("defines", ()):
        a += ["-d", n if v is None else "%s=%d" % (n, v)]
    if kw.get("setdp") is not None:
        a += ["--setdp", str(kw["setdp"])]
    if "max_passes" in kw:
        a += ["-P", str(kw["max_passes"])]
    if kw.get("exec_opt") is not None:
        a += ["-e", str(kw["exec_opt"])]
    return a


def reference(files, main=("a.s",), **kw):
    kw = dict(kw)
    kw["defines"] = [(n, 1 if v is None else v) for n, v in kw.get("defines", ())]
    return RA.Asm(files, main, **kw).run()


def expectation(ref, symbols=True):
    """Canonical comparable outcome."""
    if not ref.ok:
        return ("fail",)
    if any(a + len(d) > 0x10000 or a < 0 for a, d in ref.chunks):
        return ("fail",)
    return ("ok", tuple(sorted(ref.image.items())), ref.exec_addr or 0,
            tuple(sorted(ref.symbols.items(), key=lambda x: x[0])) if symbols else None)


def observed(r, symbols=True):
    if not r.ok:
        if r.failed and "o" not in r.files and r.err.strip():
            return ("fail",)
        return ("abnormal: %s%s%s" % (r.status(), ", output written" if "o" in r.files else "",
                                     ", no diagnostic" if not r.err.strip() else ""),)
    try:
        if "o" not in r.files:
            return ("no output file",)
        blocks, ex = F.srec(r.files["o"])
        im = F.image(blocks)
        F.merge(blocks)
        sy = None
        if symbols:
            if "s" not in r.files:
                return ("no symbols file",)
            sy = tuple(sorted(parse_symbols(r.files["s"].decode("latin-1")).items()))
        return ("ok", tuple(sorted(im.items())), ex, sy)
    except F.Bad as e:
        return ("malformed output: %s" % e,)


def same(exp, got):
    if exp == got:
        return True
    return False


def show(x):
    if x[0] != "ok":
        return str(x)
    s = []
    for a, b in F.merge([(a, bytes([v])) for a, v in x[1]]):
        s.append("$%04X: %s" % (a, b.hex(" ") if len(b) <= 40 else b[:40].hex(" ") + "... (%d)" % len(b)))
    return "ok; " + "; ".join(s) + "; exec $%04X; symbols %s" % (x[2], x[3])


def located(ref, err):
    """Is some error of the level that decides the run named by file and line?"""
    c = [e for e in ref.errors if e[0] == ref.level and e[2] > 0]
    return not c or any(e[3] == "unfinished macro" for e in c) or any("%s:%d:" % (e[1], e[2]) in err for e in c)


def check_prog(w, files, main=("a.s",), mode="min", symbols=True, extra_files=None, key=None, what="",
               run_mode="plain", where=True, **kw):
    """Compare one program; files: {name: [Line]} or list of Lines.  Returns the reference
    outcome, or None if the program is outside the specified domain."""
    if not isinstance(files, dict):
        files = {"a.s": files}
    try:
        ref = reference(files, main, **kw)
    except ISA.DontCare:
        w.stats.outcome("unspecified")
        return None
    exp = expectation(ref, symbols)
    w.stats.state(exp)
    w.stats.transitions += sum(len(ls) for ls in files.values())
    txt = {n: RA.text(ls, mode) for n, ls in files.items()}
    for n, d in (kw.get("bins") or {}).items():
        txt[n] = d
    if extra_files:
        txt.update(extra_files)
    args = opt_args(kw) + ["-S", "-o", "o"] + (["-s", "s"] if symbols else []) + list(main)

    def go():
        return w.run(args, txt, ["o", "s"] if symbols else ["o"], mode=run_mode)
    r = go()
    got = observed(r, symbols)
    ok = exp == got
    if ok and exp[0] == "fail" and where and not ref.ok and not located(ref, r.err):
        ok = False
        got = ("failed, but no diagnostic for the right line: " + r.err[:300],)
        exp = ("error at one of %s" % [(e[1], e[2], e[3]) for e in ref.errors if e[0] == ref.level][:4],)
    w.stats.outcome("assembled" if exp[0] == "ok" else "rejected")
    if w.stats.transitions % 997 < 4:
        w.stats.sample(" / ".join(x.strip().replace("\t", " ") for x in txt[main[0]].split("\n") if x)[:200] + "  =>  " + show(exp)[:200])
    if not ok:
        first = got

        def recheck():
            r2 = go()
            return r2.key() == r.key()
        w.bad("%s: %s" % (what or "program", " / ".join(x for x in txt[main[0]].split("\n") if x)[:300]),
              args, txt, show(exp), show(first) + ("; stderr: " + r.err[:300] if r.err else ""),
              key=key, recheck=recheck)
    return ref


def decode(fmt, d):
    """(image, exec address or None) of an output file."""
    if fmt == "bin":
        return None, None
    blocks, ex = {"dragondos": F.dragondos, "coco": F.coco, "srec": F.srec, "hex": F.ihex}[fmt](d)
    return F.image(blocks), ex


def expect_format(ref, fmt):
    """Canonical contents of an output file: ("fail",), ("raw", bytes) or ("img", image, exec)."""
    if not ref.ok:
        return ("fail",)
    if fmt == "bin":
        return ("raw", ref.blob()[1])
    im = ref.image
    lo, hi = (min(im), max(im)) if im else (0, -1)
    ex = ref.exec_addr
    if hi > 0xffff:
        return ("fail",)
    bl = ref.blocks()
    if not im and ex is None and fmt in ("coco", "dragondos"):
        return ("img", im, None)        # no address to default to
    if fmt == "dragondos":
        if hi - lo + 1 > 0xffff:
            return ("fail",)
        im = {lo + i: x for i, x in enumerate(ref.blob()[1])}
        return ("img", im, lo if ex is None else ex)
    if fmt == "coco":
        if any(len(b) > 0xffff for a, b in bl):
            return ("fail",)
        return ("img", im, ex if ex is not None else lo)
    return ("img", im, ex or 0)


def got_format(r, fmt):
    if not r.ok:
        return ("fail",) if r.failed and "o" not in r.files and r.err.strip() else \
            ("abnormal: %s%s" % (r.status(), ", output written" if "o" in r.files else ""),)
    if "o" not in r.files:
        return ("no output file",)
    if fmt == "bin":
        return ("raw", r.files["o"])
    try:
        im, ex = decode(fmt, r.files["o"])
    except F.Bad as e:
        return ("malformed output: %s" % e,)
    return ("img", im, ex)


def showf(x):
    if x[0] == "raw":
        return "%d bytes: %s" % (len(x[1]), x[1][:64].hex(" "))
    if x[0] == "img":
        return show(("ok", sorted(x[1].items()), x[2] or 0, ""))
    return str(x)


def check_formats(w, files, main=("a.s",), fmts=tuple(FMT), what="", extra_files=None, **kw):
    """The same program in every output format, each decoded and compared."""
    if not isinstance(files, dict):
        files = {"a.s": files}
    try:
        ref = reference(files, main, **kw)
    except ISA.DontCare:
        w.stats.outcome("unspecified")
        return
    txt = {n: RA.text(ls) for n, ls in files.items()}
    txt.update(extra_files or {})
    w.stats.transitions += sum(len(ls) for ls in files.values())
    for fmt in fmts:
        exp = expect_format(ref, fmt)
        w.stats.state((fmt, exp[0], tuple(sorted(exp[1].items())) if exp[0] == "img" else exp[1:], exp[2:]))
        w.stats.outcome(fmt + (" rejected" if exp[0] == "fail" else ""))
        args = opt_args(kw) + ["-q", FMT[fmt], "-o", "o"] + list(main)

        def go():
            return w.run(args, txt, ["o"])
        r = go()
        got = got_format(r, fmt)
        if exp[0] == "img" and exp[2] is None and len(got) > 2:
            got = got[:2] + (None,)
        if w.stats.traces % 991 == 0:
            w.stats.sample("%s: %s => %s" % (fmt, " / ".join(x.strip().replace("\t", " ") for x in txt[main[0]].split("\n") if x)[:200], showf(exp)[:200]))
        if got != exp:
            w.bad("%s, %s: %s" % (what, fmt, " / ".join(x for x in txt[main[0]].split("\n") if x)[:300]), args, txt, showf(exp),
                  showf(got) + ("; stderr: " + r.err[:300] if r.err else ""), recheck=lambda: go().key() == r.key())
