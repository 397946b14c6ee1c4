"""Build the working tree of /repo, linked with the fork server, in a scratch directory.

Nothing is written in /repo.  Modes: plain (gcc -O1), asan (gcc address + selected
undefined), msan (clang memory), cli (the ordinary program, for replays)."""
import glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), "harness")

GNULIB = """asnprintf basename-lgpl bitrotate c-ctype c-strcasecmp c-strncasecmp
dirname-lgpl exitfail getprogname gl_avltree_list gl_list gl_xlist hash printf-args
printf-parse stripslash unistd vasnprintf xalloc-die xasprintf xmalloc xsize
xvasprintf""".split()
GENERATED_HDRS = ["alloca.h", "limits.h", "stdio.h", "stdlib.h", "string.h", "unistd.h",
                  "wchar.h", "sys/types.h"]

MODES = {
    "plain": (["gcc"], ["-O1", "-g0"], []),
    "asan": (["gcc"], ["-O1", "-g1", "-fno-omit-frame-pointer",
                       "-fsanitize=address,bounds,null,unreachable,integer-divide-by-zero,"
                       "return,vla-bound,pointer-overflow,alignment,nonnull-attribute,"
                       "returns-nonnull-attribute,object-size",
                       "-fno-sanitize-recover=all"],
             ["-fsanitize=address,undefined"]),
    "msan": (["clang"], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory",
                         "-DVERIF_MSAN"], ["-fsanitize=memory"]),
}


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def prepare(scratch):
    """Copy sources, regenerate lexer and grammar; returns the tree's path."""
    t = os.path.join(scratch, "tree")
    os.makedirs(t)
    for d in ("src", "dt101", "gnulib"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(t, d), symlinks=True,
                        ignore=shutil.ignore_patterns("*.o", "*.a", ".deps", "asm6809"))
    for f in ("grammar.c", "grammar.h", "lex.c"):
        p = os.path.join(t, "src", f)
        if os.path.exists(p):
            os.unlink(p)
    cfg = os.path.join(REPO, "config.h")
    saved = os.path.join(HARNESS, "config")
    shutil.copy(cfg if os.path.exists(cfg) else os.path.join(saved, "config.h"),
                os.path.join(t, "config.h"))
    for h in GENERATED_HDRS:
        dst = os.path.join(t, "gnulib", h)
        if not os.path.exists(dst):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(os.path.join(saved, "gnulib", h), dst)
    s = os.path.join(t, "src")
    for y in glob.glob(os.path.join(s, "*.y")):
        b = os.path.basename(y)[:-2]
        _run(["bison", "-d", "-o", b + ".c", b + ".y"], s)
    for l in glob.glob(os.path.join(s, "*.l")):
        b = os.path.basename(l)[:-2]
        _run(["flex", "-o", b + ".c", b + ".l"], s)
    return t


def compile_mode(tree, scratch, mode, cli=False):
    cc, cflags, ldflags = MODES[mode]
    od = os.path.join(scratch, "obj-" + mode)
    os.makedirs(od, exist_ok=True)
    srcs = glob.glob(os.path.join(tree, "src", "*.c")) + glob.glob(os.path.join(tree, "dt101", "*.c"))
    srcs += [os.path.join(tree, "gnulib", g + ".c") for g in GNULIB]
    inc = ["-DHAVE_CONFIG_H", "-I" + tree, "-I" + os.path.join(tree, "gnulib"),
           "-I" + os.path.join(tree, "dt101"), "-I" + os.path.join(tree, "src"), "-w"]

    def one(src):
        o = os.path.join(od, os.path.basename(os.path.dirname(src)) + "-" +
                         os.path.basename(src)[:-2] + ".o")
        _run(cc + cflags + inc + ["-c", src, "-o", o], tree)
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    # gnulib as a library, as in the ordinary build: the program may replace parts of it
    lib = os.path.join(od, "libgnu.a")
    gnu = [o for o in objs if os.path.basename(o).startswith("gnulib-")]
    _run(["ar", "rcs", lib] + gnu, tree)
    objs = [o for o in objs if o not in gnu]
    out = os.path.join(scratch, "server-" + mode)
    if cli:
        out = os.path.join(scratch, "asm6809-" + mode)
        _run(cc + ldflags + objs + [lib, "-lm", "-o", out], tree)
        return out
    for o in objs:
        _run(["objcopy", "--redefine-sym", "main=asm6809_main", o], tree)
    so = os.path.join(od, "server.o")
    _run(cc + cflags + ["-w", "-c", os.path.join(HARNESS, "server.c"), "-o", so], tree)
    _run(cc + ldflags + ["-Wl,--wrap=fopen"] + objs + [so, lib, "-lm", "-o", out], tree)
    return out
