#!/usr/bin/env python3
"""mutate.py STEP OFFSET [FILE...]: every STEP-th mutant of the sources, each tried on the
checks (cheap ones first) until one reports a violation.  Prints survivors.  Development only."""
import os, re, subprocess, sys, shutil, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
num = lambda t: int(t, 16) if t[:2].lower() == "0x" else int(t)
FILES = ["src/%s" % f for f in "asm6809.c assemble.c error.c eval.c grammar.y instr.c interp.c lex.l listing.c node.c opcode.c output.c program.c register.c section.c symbol.c".split()] + ["dt101/dict.c", "dt101/hash-djb2.c"]
ORDER = (os.environ.get("ORDER") or "C07 C14 C13 C06 C12 C08 C04 C09 C02 C10 C11 C23 C17 C01 C15 C05 C03 C19 C24 C16 C21").split()
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![<>=-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w)]) \+ (?=[\w(])", " - "), (r"(?<=[\w)]) - (?=[\w(])", " + "), (r"\+\+", "--"), (r"<<", ">>"), (r" & ", " | "), (r" \| ", " & "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.\"'\\%])([0-9]+|0x[0-9a-fA-F]+)(?![\w.\"'])", lambda m: str(num(m.group(0)) + 1)), (r"(?<![\w.\"'\\%])([1-9][0-9]*|0x[0-9a-fA-F]+)(?![\w.\"'])", lambda m: str(num(m.group(0)) - 1)), (r"\bif \((?!.*\{.*\})(.*)\)(?= *\{?$)", lambda m: "if (!(" + m.group(1) + "))"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\breturn;", ";")]


def mutants(f):
    src = open("/repo/" + f).read().split("\n")
    skip = False
    for i, l in enumerate(src):
        t = l.strip()
        if t.startswith("/*"):
            skip = True
        if skip or t.startswith(("//", "#", "*")) or "error(error_type" in t and False:
            skip = skip and "*/" not in t
            continue
        for rx, to in OPS:
            for m in re.finditer(rx, l):
                if l[:m.start()].count('"') % 2:
                    continue
                r = to(m) if callable(to) else m.expand(to) if "\\" in to else to
                yield i, l, l[:m.start()] + r + l[m.end():]
        # statement deletion
        if re.match(r"\s+[\w>.\[\]()*-]+( [-+|&]?=[^=]|\(|\+\+|--).*;$", l) and not re.match(r"\s+(const |struct |int |char |long |unsigned |size_t |_Bool |double |return|for|if|while|case|enum |static |FILE )", l):
            yield i, l, re.match(r"\s*", l).group(0) + ";"


def main():
    step, off = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or FILES
    todo = [(f, m) for f in files for m in mutants(f)]
    sel = todo[off::step]
    print("%d mutants, %d selected" % (len(todo), len(sel)), flush=True)
    import build
    base = None
    for n, (f, (i, old, new)) in enumerate([(None, (0, "", ""))] + sel):
        w = "/dev/shm/mut"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + "/repo")
        for d in ("src", "dt101", "gnulib", "config.h"):
            subprocess.run(["cp", "-a", "/repo/" + d, w + "/repo/"], check=True)
        if f:
            s = open("/repo/" + f).read().split("\n")
            s[i] = new
            open(w + "/repo/" + f, "w").write("\n".join(s))
        build.REPO = w + "/repo"
        os.makedirs(w + "/b")
        try:
            t = build.prepare(w + "/b")
            exe = build.compile_mode(t, w + "/b", "plain")
        except build.BuildError:
            print("  nobuild", flush=True)
            continue
        h = hashlib.sha256((subprocess.run(["objcopy", "-S", exe, w + "/stripped"], check=True), open(w + "/stripped", "rb").read())[1]).hexdigest()
        if base is None:
            base = h
            continue
        if h == base:
            print("  same code %s:%d" % (f, i + 1), flush=True)
            continue
        t0 = time.time()
        kill = None
        for c in ORDER:
            try:
                p = subprocess.run([sys.executable, V + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w, timeout=900, env=dict(os.environ, VERIF_PREBUILT=w + "/b", VERIF_REPO=w + "/repo", VERIF_FAILFAST="1", VERIF_TIER="quick", VERIF_SEED="1"))
            except subprocess.TimeoutExpired:
                kill = c + " timeout"
                break
            if p.returncode:
                kill = c if b"VIOLATION property" in p.stdout else c + " exit %d" % p.returncode
                break
        print("%s %-12s %4.0fs %s:%d\n    - %s\n    + %s" % ("  killed" if kill else "SURVIVED", kill or "", time.time() - t0, f, i + 1, old.strip(), new.strip()), flush=True)


main()
