"""Driver for the fork server, worker pool and check bookkeeping."""
import atexit, itertools, json, multiprocessing as mp, os, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
import build

FAILFAST = os.environ.get("VERIF_FAILFAST")      # development: stop at the first violation
NW = int(os.environ.get("VERIF_WORKERS", "8"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Result:
    __slots__ = ("kind", "code", "out", "err", "files", "extra", "special")

    def __init__(self, kind, code, out, err, files, extra, special):
        self.kind, self.code, self.out, self.err = kind, code, out, err
        self.files, self.extra, self.special = files, extra, special

    @property
    def ok(self):
        return self.kind == 0 and self.code == 0

    @property
    def failed(self):  # an orderly failure
        return self.kind == 0 and self.code == 1

    def status(self):
        return ("exit %d" % self.code) if self.kind == 0 else \
               ("signal %d" % self.code) if self.kind == 1 else "timeout"

    def key(self):
        return (self.kind, self.code, self.out, self.err, tuple(sorted(self.files.items())))


def _b(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


def _s(s):
    s = _b(s)
    return struct.pack("<I", len(s)) + s + b"\0"


class Server:
    def __init__(self, exe, basedir):
        self.exe = exe
        self.dir = tempfile.mkdtemp(prefix="w", dir=basedir)
        self.p = subprocess.Popen([exe, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.n = 0

    def _read(self, n):
        d = self.p.stdout.read(n)
        if len(d) != n:
            raise RuntimeError("server died")
        return d

    def run(self, args, files, outs=(), timeout=4000, fsize=-1):
        """files: dict name -> content, or name -> (kind, content)."""
        q = [struct.pack("<Iq", timeout, fsize), struct.pack("<I", len(args))]
        q += [_s(a) for a in args]
        q.append(struct.pack("<I", len(files)))
        for n, c in files.items():
            kind = 0
            if isinstance(c, tuple):
                kind, c = c
                if kind == 5:               # "?name": a fault in an existing file
                    n = n.lstrip("?")
            q.append(struct.pack("<I", kind)); q.append(_s(n)); q.append(_s(c))
        q.append(struct.pack("<I", len(outs)))
        q += [_s(o) for o in outs]
        q = b"".join(q)
        self.p.stdin.write(struct.pack("<I", len(q)) + q)
        self.p.stdin.flush()
        self.n += 1
        (n,) = struct.unpack("<I", self._read(4))
        d = self._read(n)
        kind, code, ln = struct.unpack_from("<III", d, 0)
        p = 12
        out = d[p:p + ln]; p += ln
        (ln,) = struct.unpack_from("<I", d, p); p += 4
        err = d[p:p + ln]; p += ln
        (k,) = struct.unpack_from("<I", d, p); p += 4
        fs, special = {}, []
        for i in range(k):
            ex, ln = struct.unpack_from("<II", d, p); p += 8
            if ex == 1:
                fs[outs[i]] = d[p:p + ln]
            elif ex == 2:
                special.append(outs[i])
            p += ln
        (k,) = struct.unpack_from("<I", d, p); p += 4
        extra = []
        for i in range(k):
            (ln,) = struct.unpack_from("<I", d, p); p += 4
            extra.append(d[p:p + ln].decode("latin-1")); p += ln
        return Result(kind, code, out.decode("latin-1"), err.decode("latin-1"), fs, extra, special)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Violation:
    """One failing case, replayable."""
    def __init__(self, summary, args, files, expected, got, key=None):
        self.summary, self.args, self.files = summary, list(args), dict(files)
        self.expected, self.got = expected, got
        self.key = key or summary     # identifies the failing input (known findings)


class Stats:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.outcomes = {}
        self.info = {}

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.evals += o.evals
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.info.items():
            self.info[k] = self.info.get(k, 0) + v
        self.samples += o.samples

    def outcome(self, k):
        self.outcomes[k] = self.outcomes.get(k, 0) + 1

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def state(self, s):
        self.states.add(hash(s))


class Worker:
    """Per-process context handed to a check's shard function."""
    def __init__(self, idx, n, exes, basedir):
        self.idx, self.n = idx, n
        self.exes, self.basedir = exes, basedir
        self.servers = {}
        self.stats = Stats()
        self.violations, self.flaky = [], []
        self.maxviol = 40
        self.stop = None

    def server(self, mode="plain"):
        if mode not in self.servers:
            self.servers[mode] = Server(self.exes[mode], self.basedir)
        return self.servers[mode]

    def run(self, args, files, outs=(), mode="plain", timeout=4000, fsize=-1):
        self.stats.traces += 1
        if FAILFAST and self.stop.is_set():
            raise StopShard()
        r = self.server(mode).run(args, files, outs, timeout, fsize)
        if r.kind == 2:
            # a deadline missed under load is not a hang: once more, alone-ish, longer
            r = self.server(mode).run(args, files, outs, 30000, fsize)
        return r

    def mine(self, it):
        """This worker's share of a deterministic enumeration."""
        return itertools.islice(it, self.idx, None, self.n)

    def bad(self, summary, args, files, expected, got, key=None, recheck=None):
        """Report a violation; recheck() -> True if it still fails (run twice)."""
        if recheck is not None:
            for _ in range(2):
                if not recheck():
                    # not reported, but the run doesn't pass either
                    self.flaky.append("nondeterministic result for: " + summary)
                    if len(self.flaky) >= self.maxviol:
                        raise StopShard()
                    return
        self.violations.append(Violation(summary, args, files, expected, got, key))
        if FAILFAST:
            self.stop.set()
        if len(self.violations) >= self.maxviol:
            raise StopShard()


class StopShard(Exception):
    pass


def _child(fn, idx, n, exes, basedir, q, arg, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = Worker(idx, n, exes, basedir)
    w.stop = stop
    err = None
    try:
        fn(w, arg)
    except StopShard:
        pass
    except BaseException:
        err = traceback.format_exc()
    for s in w.servers.values():
        s.close()
    q.put((idx, w.stats, w.violations, err or "\n".join(w.flaky)))


class Check:
    def __init__(self, pid, modes=("plain",), level="model_checking"):
        self.pid, self.modes, self.level = pid, modes, level
        self.t0 = time.time()
        self.stats = Stats()
        self.violations = []
        self.bounds = []
        self.assumptions = []
        self.errs = []
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
        atexit.register(self.cleanup)
        self.owner = os.getpid()
        pre = os.environ.get("VERIF_PREBUILT")   # development: tools/mutate.py
        if pre and "plain" in modes and len(modes) == 1:
            self.tree, self.exes = pre + "/tree", {"plain": pre + "/server-plain"}
            return
        self.tree = build.prepare(self.scratch)
        self.exes = {m: build.compile_mode(self.tree, self.scratch, m) for m in modes}

    def cleanup(self):
        if os.getpid() == getattr(self, "owner", -1):
            shutil.rmtree(self.scratch, ignore_errors=True)

    def explore(self, fn, arg=None, n=None):
        """Run fn(worker, arg) in n processes; merge what they covered."""
        n = n or NW
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        if FAILFAST and self.violations:
            return self
        stop = ctx.Event()
        ps = [ctx.Process(target=_child, args=(fn, i, n, self.exes, self.scratch, q, arg, stop))
              for i in range(n)]
        for p in ps:
            p.start()
        got, errs = 0, []
        while got < n:
            try:
                idx, st, viol, err = q.get(timeout=5)
            except Exception:
                if any(not p.is_alive() and p.exitcode not in (0, None) for p in ps):
                    errs.append("worker died")
                    break
                continue
            got += 1
            self.stats.merge(st)
            self.violations += viol
            if err:
                errs.append(err)
        for p in ps:
            p.join(10)
            if p.is_alive():
                p.kill()
        self.errs += errs
        return self

    def finish(self, extra=None):
        if self.errs and not self.violations:
            sys.stderr.write("\n".join(self.errs[:2]) + "\n")
            raise SystemExit(3)
        known = load_known(self.pid)
        unknown, seen_known = [], {}
        for v in self.violations:
            k = match_known(known, v)
            if k:
                seen_known.setdefault(k["key"], v)
            else:
                unknown.append(v)
        st = self.stats
        cov = {"samples": st.samples[:5] or ["none"],
               "bounds": self.bounds, "outcomes": dict(sorted(st.outcomes.items())),
               "exhaustive": not unknown}
        if self.level == "model_checking":
            cov.update(states=len(st.states), transitions=st.transitions,
                       traces_validated_against_impl=st.traces)
        else:
            cov.update(evaluations=st.traces, distinct_nontrivial=len(st.states),
                       rule=getattr(self, "rule", ""))
        if st.info:
            cov["counters"] = dict(sorted(st.info.items()))
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unknown)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        print("%s: %d executions, %d states, %d transitions, %d violations, %.1fs; outcomes %s" % (
            self.pid, st.traces, len(st.states), st.transitions, len(unknown),
            time.time() - self.t0, json.dumps(cov["outcomes"])[:600]))
        if unknown:
            unknown.sort(key=lambda v: (sum(len(_b(c if not isinstance(c, tuple) else c[1]))
                                            for c in v.files.values()), v.summary))
            rp = save_replay(self.pid, unknown)
            for v in unknown[:10]:
                print("  " + v.summary)
                print("    expected: %s" % (str(v.expected)[:600],))
                print("    got:      %s" % (str(v.got)[:600],))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        sys.exit(0)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def match_known(known, v):
    for k in known:
        if k["key"] == v.key:
            return k
    return None


def save_replay(pid, viols):
    base = os.path.join(VERIF, "replay", pid)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    for i, v in enumerate(viols[:10]):
        d = os.path.join(base, "%02d" % i)
        os.makedirs(os.path.join(d, "in"), exist_ok=True)
        setup = []
        for n, c in v.files.items():
            kind = 0
            if isinstance(c, tuple):
                kind, c = c
            if kind == 1:
                setup.append("mkdir %s" % sh(n))
            elif kind == 2:
                setup.append("ln -s %s %s" % (sh(c), sh(n)))
            elif kind == 4:
                setup.append("mkfifo %s" % sh(n))
            elif kind == 5:
                setup.append(": # fault in %s: %s (only injected by the harness)" % (sh(n), sh(c)))
            else:
                os.makedirs(os.path.dirname(os.path.join(d, "in", n)), exist_ok=True)
                with open(os.path.join(d, "in", n), "wb") as f:
                    f.write(_b(c))
                if kind == 3:
                    setup.append("chmod 0 %s" % sh(n))
        with open(os.path.join(d, "run.sh"), "w") as f:
            f.write("#!/bin/sh\n# %s\n" % v.summary.replace("\n", " "))
            f.write("# expected: %s\n# got:      %s\n" % (str(v.expected).replace("\n", " ")[:2000],
                                                        str(v.got).replace("\n", " ")[:2000]))
            f.write('# Replays the case on the ordinary build (bash /opt/vp/build.sh first).\n')
            f.write('w=$(mktemp -d) && cp -R "$(dirname "$0")"/in/. "$w" && cd "$w" || exit 2\n')
            f.write("\n".join(setup) + "\n")
            f.write("${ASM6809:-/repo/src/asm6809} %s\n" % " ".join(sh(a) for a in v.args))
            f.write('echo "exit status $?"\nfor f in *; do echo "== $f"; od -An -tx1 -v "$f" | head -20; done\n')
            f.write('cd / && rm -r "$w"\n')
    return os.path.relpath(os.path.join(base, "00"), VERIF)


def sh(s):
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    return "'" + s.replace("'", "'\\''") + "'"
