"""Check runner: scratch space, builds, worker pool, drv invocation, known findings, evidence, verdict."""
import json, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import rpmgen as R

VERIF = os.path.dirname(HERE)
SAN_ENV = dict(ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=1:leak_check_at_exit=0:allocator_may_return_null=1:"
               "max_allocation_size_mb=3000:malloc_context_size=12:detect_stack_use_after_return=1:handle_abort=2",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98", TSAN_OPTIONS="allocator_may_return_null=1:exitcode=97:halt_on_error=0:"
               "second_deadlock_stack=1", LSAN_OPTIONS="exitcode=0:print_suppressions=0")
ERR_OK = set(range(0, 11))
SAN_RE = re.compile(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: ([^\n]+)|ERROR: LeakSanitizer|WARNING: ThreadSanitizer: ([^\n(]+)|"
                    r"AddressSanitizer:DEADLYSIGNAL|WARNING: MemorySanitizer: ([\w-]+)")
FRAME_RE = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in ([\w.]+) (?:\S*/)?(drpm\w*\.[ch]):(\d+)", re.M)
UB_RE = re.compile(r"(drpm\w*\.[ch]):(\d+):\d+: runtime error: ([^\n]+)")


VG_RE = re.compile(r"^==\d+== ((?:Invalid |Conditional jump|Use of uninit|Syscall param|Mismatched|Source and dest|Argument|Jump to).*)$", re.M)
VG_FRAME = re.compile(r"^==\d+== +(?:at|by) 0x[0-9A-F]+: ([\w.]+) \((drpm\w*\.[ch]):(\d+)\)", re.M)
VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--num-callers=25", "--leak-check=no", "--track-origins=yes", "--child-silent-after-fork=no",
            "--error-limit=no", "--vgdb=no"]


def classify(err):
    """Short stable key of a sanitizer report (kind and innermost library function), or None."""
    m = SAN_RE.search(err)
    if not m:
        m = VG_RE.search(err)
        if m:
            f = VG_FRAME.search(err[m.start():])
            return "%s in %s" % (re.sub(r"\d+", "N", m.group(1))[:70], f.group(1) if f else "?")
        return None
    kind = next((g for g in m.groups() if g), None) or m.group(0)
    u = UB_RE.search(err)
    f = FRAME_RE.search(err[m.start():])
    where = "%s" % f.group(1) if f else (u.group(1) if u else "?")
    kind = re.sub(r"0x[0-9a-f]+|\d+", "N", kind)[:70]
    return "%s in %s" % (kind, where)


def is_oom_report(err):
    return "allocation-size-too-big" in err or "out-of-memory" in err or "exceeds maximum supported size" in err


SLOW = (signal.SIGXCPU, signal.SIGKILL, signal.SIGALRM)
_W = {}


class Stuck(Exception):
    """A call gave no answer within its time, even uninstrumented; nothing more is asked of this unit."""


class Drv:
    def __init__(self, exe, tmp, leak=False, cpu=20, wall=180, env=None, threads=False, extra=(), plain=None, mem=False, wrap=(), memcheck=False,
                 stuck=False):
        """plain: uninstrumented driver asked again about groups that run out of processor time (instrumentation makes growing a
        buffer quadratic); such a group's results are the plain driver's and it counts as inconclusive for the sanitizers. Out of time
        there too: Stuck is raised. stuck: raise it at once."""
        self.exe, self.tmp, self.leak, self.cpu, self.wall, self.plain = exe, tmp, leak, cpu, wall, plain
        self.env = dict(os.environ)
        self.env.update(SAN_ENV)
        self.env.update(env or {})
        self.wrap, self.stuck = list(wrap), stuck
        self.memcheck = memcheck
        self.threads, self.extra = threads, list(extra) + (["-m"] if mem else [])

    def run(self, groups, **kw):
        """groups: list of lists of op lines (tuples of fields or strings). Returns one dict per group:
        {ops: [result dict...], exit, sig, err}."""
        res = []
        while len(res) < len(groups):
            res += self.run_some(groups[len(res):], **kw)
        return res

    def run_some(self, groups, cwd=None, env=None, cpu=None):
        """Runs groups up to the first that does not end in time."""
        lines, starts = [], []
        for g in groups:
            starts.append(len(lines))
            for op in g:
                lines.append(op if isinstance(op, str) else "\t".join(str(x) for x in op))
            lines.append("--")
        ed = tempfile.mkdtemp(prefix="err", dir=self.tmp)
        cmd = self.wrap + (VALGRIND + ["--log-file=%s/vg.%%p" % ed] if self.memcheck else []) + [self.exe, "-e", ed, "-c", str(cpu or self.cpu), "-w", str(self.wall)] + (["-l"] if self.leak else []) + \
            (["-T"] if self.threads else []) + (["-S"] if self.plain or self.stuck else []) + self.extra
        e = dict(self.env)
        e.update(env or {})
        p = subprocess.run(cmd, input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=cwd, env=e)
        res = {s: dict(ops=[], exit=None, sig=None, err="") for s in starts}
        idx = {}
        for s, g in zip(starts, groups):
            for k in range(len(g)):
                idx[s + k] = (s, k)
        for ln in p.stdout.decode("latin-1").splitlines():
            try:
                j = json.loads(ln)
            except ValueError:
                continue
            if "group" in j:
                g = res[j["group"]]
                g["exit"], g["sig"], g["pid"] = j["exit"], j["sig"], j.get("pid")
            elif "mem" in j:
                s, k = idx[j["mem"]]
                res[s]["ops"][-1]["mem"] = j["bytes"]
            elif "op" in j:
                s, k = idx[j["op"]]
                res[s]["ops"].append(j)
        for s in starts:
            try:
                with open(os.path.join(ed, "%d.err" % s), errors="replace") as f:
                    res[s]["err"] = f.read()[:200000]
            except OSError:
                pass
            if self.memcheck:
                try:
                    with open(os.path.join(ed, "vg.%s" % res[s].get("pid")), errors="replace") as f:
                        res[s]["err"] += f.read()[:200000]
                except OSError:
                    pass
        shutil.rmtree(ed, ignore_errors=True)
        if p.returncode != 0 and all(res[s]["exit"] is None for s in starts):
            raise RuntimeError("drv failed: rc %s %s" % (p.returncode, p.stderr[-2000:]))
        n = next((k + 1 for k, s in enumerate(starts) if res[s]["sig"] in SLOW), len(starts)) if "-S" in cmd else len(starts)
        starts, groups = starts[:n], groups[:n]
        for s in starts:
            if res[s]["exit"] is None:
                raise RuntimeError("drv lost a group: rc %s %s" % (p.returncode, p.stderr[-2000:]))
        g, s = groups[-1], starts[-1]
        if "-S" in cmd and res[s]["sig"] in SLOW and not classify(res[s]["err"]):
            if self.plain:
                alone = Drv(self.plain, self.tmp, cpu=60, wall=180, env={k: v for k, v in self.env.items() if k not in SAN_ENV},
                            threads=self.threads).run([g], cwd=cwd, env=env)[0]
                res[s].update(ops=alone["ops"], exit=alone["exit"], sig=alone["sig"], err=alone["err"])
                _W["slow"] = _W.get("slow", 0) + 1
            if res[s]["sig"] in SLOW:
                raise Stuck("signal %d" % res[s]["sig"], g, len(res[s]["ops"]))
        return [res[s] for s in starts]


def run_packed(drv, units, per=8, **kw):
    """Runs units (lists of ops), several per child process. A pack that does not end normally is run again unit by unit; when no
    unit fails alone, the pack's own end is kept for all its units (a failure that needs the history)."""
    packs = [units[i:i + per] for i in range(0, len(units), per)]
    res = drv.run([[op for u in pk for op in u] for pk in packs], **kw)
    out = []
    for pk, g in zip(packs, res):
        n = sum(len(u) for u in pk)
        if crashed(g, n) is None:
            k = 0
            for u in pk:
                out.append(dict(ops=g["ops"][k:k + len(u)], exit=0, sig=0, err=""))
                k += len(u)
            continue
        alone = drv.run(pk, **kw)
        if all(crashed(a, len(u)) is None for a, u in zip(alone, pk)):
            for a in alone:
                a.update(exit=g["exit"], sig=g["sig"], err=g["err"] + "\n(only in sequence: %r)" % (pk,), ops=a["ops"][:-1])
        out += alone
    return out


def memchecked(ctx, out, units, meta, env=None, per=8):
    """Runs units under valgrind memcheck; reports uses of undefined or invalid memory made by the library (also as system call
    arguments). meta: (what, files) of each unit."""
    e = dict(env or {}, DRPMV_MAXALLOC=str(32 << 20))
    d = Drv(ctx.exes["memcheck"], ctx.dir, env=e, memcheck=True, cpu=120, wall=400, stuck=True)
    try:
        res = run_packed(d, units, per=per)
    except Stuck:
        out.incon += 1
        return
    for g, u, (what, files) in zip(res, units, meta):
        out.add("calls_under_memcheck", len(g["ops"]))
        k = classify(g["err"])
        if k and not k.endswith(" in ?"):
            out.bad("memcheck: " + k, what + "\n" + g["err"][-5000:], files, u)


def crashed(g, nops):
    """None, or (key, text): the group's child did not end normally."""
    k = classify(g["err"])
    if k:
        return k, g["err"][-6000:]
    if g["sig"] in SLOW:
        return "no answer (signal %d)" % g["sig"], g["err"][-2000:]
    if g["sig"]:
        return "killed by signal %d" % g["sig"], g["err"][-3000:]
    if g["exit"] != 0 or len(g["ops"]) != nops:
        return "abnormal exit %s after %d of %d calls" % (g["exit"], len(g["ops"]), nops), g["err"][-3000:]
    return None


class Ctx:
    """What a worker gets."""

    def __init__(self, prop, tier, seed, top, exes, wid):
        self.prop, self.tier, self.seed, self.top, self.exes, self.wid = prop, tier, seed, top, exes, wid
        self.dir = os.path.join(top, "w%d" % wid)
        os.makedirs(self.dir, exist_ok=True)
        self.helper = R.CompHelper(exes["comphelper"], self.dir)
        self.n = 0

    def drv(self, flavour="asan", **kw):
        return Drv(self.exes[flavour], self.dir, plain=self.exes.get("rescue"), **kw)

    def fresh(self):
        self.n += 1
        d = os.path.join(self.dir, "c%d" % self.n)
        os.makedirs(d)
        return d


class Out:
    """Collected by one worker for one unit of work."""

    def __init__(self):
        self.counts, self.viol, self.sigs, self.samples, self.incon = {}, [], set(), [], 0

    def add(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sig(self, s):
        self.sigs.add(s if isinstance(s, str) else repr(s))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def bad(self, key, desc, files=None, script=None):
        """files: {name: path or bytes}; script: drv script lines."""
        f = {}
        for k, v in (files or {}).items():
            try:
                f[k] = v if isinstance(v, bytes) else open(v, "rb").read()
            except (OSError, TypeError):
                pass
            if k in f and len(f[k]) > 8 << 20:
                f[k] = f[k][:8 << 20]
        if len(self.viol) < 20:
            self.viol.append(dict(key=key, desc=desc, files=f, script=script))


def _init(prop, tier, seed, top, exes, fn, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    wid = q.get()
    _W["ctx"] = Ctx(prop, tier, seed, top, exes, wid)
    _W["fn"] = fn


class BadOutput(Exception):
    """What the library produced for a check to work on is not what it has to be: (key, description, files)."""


def made(ctx, path):
    """A delta that the library made, decoded."""
    import deltafmt
    with open(path, "rb") as fh:
        b = fh.read()
    try:
        return deltafmt.Delta.decode(b, ctx.helper)
    except Exception as e:
        raise BadOutput("a delta that make wrote is malformed", repr(e), {"delta.drpm": b})


def _unit(i):
    ctx = _W["ctx"]
    out = Out()
    try:
        _W["fn"](ctx, random.Random("%s:%s:%s" % (ctx.seed, ctx.prop, i)), i, out)
        return out, None
    except Stuck as e:
        if ctx.prop in ("P08", "P09"):
            out.add("no_answer_left_to_P13")
        else:
            g = e.args[1]
            f = {os.path.basename(x): x for op in g for x in (op.split("\t") if isinstance(op, str) else map(str, op)) if os.path.isfile(x)}
            out.bad("no answer", "call %d of the script does not end (%s)" % (e.args[2], e.args[0]), f, g)
        return out, None
    except BadOutput as e:
        out.bad(e.args[0], e.args[1], e.args[2] if len(e.args) > 2 else {}, [])
        return out, None
    except Exception:
        return out, "unit %d: %s" % (i, traceback.format_exc())
    finally:
        out.incon += _W.pop("slow", 0)
        for d in os.listdir(ctx.dir):
            if re.match(r"c\d+$", d):
                shutil.rmtree(os.path.join(ctx.dir, d), ignore_errors=True)


def load_known():
    known = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)$", ln.strip())
            if m:
                known.append(m.groups())
    return known


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (6 << 30) else None
        self.top = tempfile.mkdtemp(prefix="drpmv-%s-" % prop, dir=base)
        os.chmod(self.top, 0o755)
        self.exes, self.total, self.errors = {}, Out(), []
        self.extra = {}

    def thorough(self):
        return self.tier == "thorough"

    def build(self, flavours, **kw):
        self.exes["comphelper"] = B.build_comphelper(os.path.join(self.top, "ch")) if os.makedirs(
            os.path.join(self.top, "ch"), exist_ok=True) is None else None
        for f in list(flavours) + [("rescue", B.fault_args("plain"))]:
            name, args = f if isinstance(f, tuple) else (f, {})
            if name not in self.exes:
                a = dict(args)
                fl = a.pop("flavour", name)
                self.exes[name] = B.build(fl, os.path.join(self.top, "b_" + name), **a)

    def map(self, fn, n, workers=None, base=0):
        """Runs fn(ctx, rng, index, out) for index in range(n) over a pool; merges."""
        workers = workers or min(8, os.cpu_count() or 4)
        q = mp.get_context("fork").Queue()
        for i in range(workers):
            q.put(i)
        with mp.get_context("fork").Pool(workers, _init, (self.prop, self.tier, self.seed, self.top, self.exes, fn, q)) as pool:
            for out, err in pool.imap_unordered(_unit, range(base, base + n)):
                self.merge(out)
                if err:
                    self.errors.append(err)
                if self.enough():
                    self.extra["stopped_early"] = "after violations" if self.total.viol else "out of time"
                    pool.terminate()
                    break
            else:
                pool.close()
            pool.join()

    def enough(self):
        """Many violations, or some and much time: the verdict does not depend on the rest. A quick check also ends in time."""
        known = {k for p, k, w in load_known() if p == self.prop}
        v = [x["key"] for x in self.total.viol if x["key"] not in known]
        t = time.time() - self.t0
        if not self.thorough() and t > 700:
            return True
        return not os.environ.get("VERIF_KEYS") and (len(v) >= 25 or len(set(v)) >= 8 or v and t > 90 and not self.thorough())

    def merge(self, out):
        t = self.total
        for k, v in out.counts.items():
            t.counts[k] = t.counts.get(k, 0) + v
        t.sigs |= out.sigs
        if len(t.samples) < 12:
            t.samples += out.samples
        t.incon += out.incon
        t.viol += out.viol

    def finish(self, evaluations, need=None):
        """Writes evidence, prints the verdict, exits."""
        rdir = os.path.join(VERIF, "evidence", "replay")
        known = [(k, w) for p, k, w in load_known() if p == self.prop]
        new, seen_known = [], {}
        byk = {}
        for v in self.total.viol:
            byk.setdefault(v["key"], v)
        for k, v in byk.items():
            m = next(((kk, w) for kk, w in known if kk == k), None)
            if m:
                seen_known[k] = m[1]
            else:
                new.append(v)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=len(self.total.sigs), rule=self.rule,
                                samples=self.total.samples[:12], counts=dict(sorted(self.total.counts.items())),
                                inconclusive=self.total.incon, **self.extra),
                  wall_s=round(time.time() - self.t0, 1), violations=len(new), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.top, ignore_errors=True)
        for k, w in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if os.environ.get("VERIF_KEYS"):
            print("\n".join("KEY " + v["key"] + " :: " + v["desc"][:300].replace("\n", " | ") for v in new))
        for i, v in enumerate(new[:5]):
            d = os.path.join(rdir, "%s-%d" % (self.prop, i))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for n, b in v["files"].items():
                with open(os.path.join(d, os.path.basename(n)), "wb") as f:
                    f.write(b)
            with open(os.path.join(d, "REPORT.txt"), "w") as f:
                f.write("%s\n\n%s\n\nscript:\n%s\n" % (v["key"], v["desc"], "\n".join(map(str, v["script"] or []))))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  %s: %s" % (v["key"], v["desc"].strip().replace("\n", "\n    ")[:1500]))
        if new:
            sys.exit(1)
        if self.errors:
            print("check error (%d):\n%s" % (len(self.errors), self.errors[0]), file=sys.stderr)
            sys.exit(3)
        for k, n in (need or {}).items():
            if self.extra.get("stopped_early") == "out of time":
                n = min(n, 1)
            if self.total.counts.get(k, 0) < n:
                print("check observed too little: %s = %d < %d" % (k, self.total.counts.get(k, 0), n), file=sys.stderr)
                sys.exit(4)
        print("%s: held on %d evaluations (%d distinct), %.1f s" % (self.prop, evaluations, len(self.total.sigs), time.time() - self.t0))
        sys.exit(0)
