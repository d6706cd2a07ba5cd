"""P16: results depend only on the inputs, and only the named outputs are touched."""
import hashlib, os, re, shutil, stat
import build as B
import build as B
import work
from run import Check, Drv, crashed, memchecked

TRACE = ["strace", "-f", "-qq", "-y", "-s", "0", "-e",
         "trace=open,openat,creat,rename,renameat,renameat2,unlink,unlinkat,mkdir,mkdirat,rmdir,chmod,fchmodat,fchmod,chown,lchown,fchownat,fchown,"
         "truncate,utime,utimes,utimensat,futimesat,link,linkat,symlink,symlinkat,mknod,mknodat,setxattr,fsetxattr,ftruncate"]
LIMIT = {"DRPMV_AS": str(1500 << 20)}         # memory that a malformed file claims is refused alike everywhere (and not filled)
LINE = re.compile(r"^\d+\s+(\w+)\((.*)\)\s*=\s*(-?\d+)")


def snapshot(d, skip=()):
    """{path: what it is} of everything below d."""
    out = {}
    for base, ds, fs in os.walk(d):
        if any(base.startswith(s) for s in skip):
            continue
        for n in ds + fs:
            p = os.path.join(base, n)
            try:
                st = os.lstat(p)
            except OSError:
                continue
            k = [stat.S_IFMT(st.st_mode), st.st_mode & 0o7777]
            if stat.S_ISREG(st.st_mode):
                k += [hashlib.md5(work.read(p) or b"").hexdigest(), st.st_mtime_ns]
            elif stat.S_ISLNK(st.st_mode):
                k += [os.readlink(p)]
            out[p] = k
    return out


def temps():
    return {n for n in os.listdir("/tmp") if n.startswith("drpm") and not n.startswith("drpmv")}


class Variant:
    """One way of running the calls: f(call) gives the call to run; group says how calls are put into processes."""

    def __init__(self, name, exe, calls, history, env=None, cwd=None, wrap=(), norm=None):
        self.name, self.exe, self.calls, self.history, self.env, self.cwd, self.wrap, self.norm = name, exe, calls, history, env or {}, cwd, wrap, norm


def renamed(w, c, to, suffix):
    """The call with input files of another name or relative ones; outputs stay in w.d."""
    c = c.with_outs(suffix)
    names = sorted(w.inputs, key=len, reverse=True)
    pat = re.compile("|".join(re.escape(n) for n in names))
    c.op = [pat.sub(lambda m: to(m.group(0)), x) for x in c.op]
    return c


def norm(w, body, to=None):
    """Body without the file names in it."""
    for n in w.inputs:
        body = body.replace(to(n) if to else n, "<%s>" % os.path.basename(n)) if body else body
    return body


def run_variant(ctx, w, v, out, r):
    drv = Drv(ctx.exes[v.exe], ctx.dir, cpu=60, stuck=True, env=dict(w.env, **LIMIT, **v.env), wrap=v.wrap)
    groups = [[c.op for _, c in v.calls]] if v.history else [[c.op] for _, c in v.calls]
    res = drv.run(groups, cwd=v.cwd)
    ops = []
    for g, u in zip(res, groups):
        c = crashed(g, len(u))
        if c:
            out.bad("%s: %s" % (v.name, c[0]), c[1] + repr(u[len(g["ops"]):][:1]), {}, u)
            return
        ops += g["ops"]
    seen = 0
    for (orig, c), o in zip(v.calls, ops):
        rc, body, data = c.outcome(o)
        out.add("calls_compared")
        seen += 1
        out.sig((v.name, orig.label.split(" ")[0], rc))
        got = (rc, norm(w, body, v.norm), data)
        exp = (orig.rc, norm(w, orig.body), orig.data)
        if got != exp:
            what = "return code %d instead of %d" % (rc, orig.rc) if rc != orig.rc else "other output" if data != orig.data else "other information"
            f = dict(orig.files)
            for n, x in enumerate(c.outs):
                f["out%d" % n] = x
            out.bad("%s differs: %s" % (orig.kind(), v.name), "%s: %s\n%r" % (orig.label, what, c.op), f, [c.op])
        elif rc == 0 and any(o2 and os.path.exists(o2) is False for o2 in c.outs):
            out.bad("output missing", orig.label, orig.files, [c.op])
    return seen


def unit(ctx, r, i, out):
    d = ctx.fresh()
    w = work.Work(ctx, r, d, npairs=r.choice([1, 2]), maxlen=r.choice([500, 3000]) if i % 5 else 40000, failing=True)
    side = os.path.join(d, "side")
    os.makedirs(side)
    t0 = temps()
    w.baseline(Drv(ctx.exes["plain"], ctx.dir, cpu=60, stuck=True, env=dict(w.env, **LIMIT)), out)
    for c in w.calls:
        c.clear()
    state, dbs = w.input_state(), w.db.snapshot()
    before = snapshot(d, (w.db.path, w.db.home))

    def twice(c, n):
        return [(c, c.with_outs(".%d.%d" % (n, q))) for q in range(2)]
    vs = []
    # 1. one process, every call twice, any order
    cs = [x for k, c in enumerate(w.calls) for x in twice(c, k)]
    r.shuffle(cs)
    vs.append(Variant("after other calls in one process", "plain", cs, True))
    # 2. fresh processes, other memory contents, relative names, existing longer outputs
    def rel(p):
        return os.path.relpath(p, d)
    cs = []
    for c in w.calls:
        x = renamed(w, c, rel, ".rel")
        for o in x.outs:
            work.write(o, r.randbytes(r.choice([10, 300000])))
        x.op = [y.replace(d + "/", "./") for y in x.op]
        cs.append((c, x))
    vs.append(Variant("relative names, existing outputs, other memory contents", "plain", cs, False, cwd=d, norm=rel, env={
        "MALLOC_PERTURB_": str(r.choice([1, 85, 170, 254])), "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX"]), "TZ": "Asia/Kathmandu", "LANG": "xx",
        "POSIXLY_CORRECT": "1", "TMPDIR": "/nonexistent", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}))
    # 3. other build of the same code (stack filled with a pattern, other optimisation), inputs elsewhere under other names, descriptor 0 free
    mv = {}
    for k, p in enumerate(w.inputs):
        q = os.path.join(side, "%s%d %s" % ("x" * r.choice([1, 90, 200]), k, r.choice(["f", "%s%n", "a.rpm.drpm", "\xfc"])))
        shutil.copy(p, q)
        mv[p] = q
    if any("\xfc" in q for q in mv.values()) and os.fsencode("\xfc") != b"\xc3\xbc":
        pass
    cs = [(c, renamed(w, c, lambda p: mv[p], ".mv")) for c in w.calls]
    vs.append(Variant("other names, patterned stack, descriptor 0 free", "pattern", cs, False, cwd="/", norm=lambda p: mv[p].encode().decode("latin-1"),
                      env={"DRPMV_CLOSE0": "1", "MALLOC_PERTURB_": "33"}))
    # 4. the same history in a patterned process, calls in reverse
    cs = [x for k, c in enumerate(reversed(w.calls)) for x in [(c, c.with_outs(".p%d" % k))]]
    vs.append(Variant("after other calls, patterned stack and memory", "pattern", cs, True, env={"MALLOC_PERTURB_": "254"}))
    moved = snapshot(side)
    outs, pre = set(), set()
    for v in vs:
        for _, c in v.calls:
            outs |= set(c.outs)
    for v in vs:
        if run_variant(ctx, w, v, out, r):
            out.add("variants_run")
    if i % 8 == 4:
        cs = [(c, c.with_outs(".v%d" % k)) for k, c in enumerate(w.calls)]
        for _, c in cs:
            outs |= set(c.outs)
        memchecked(ctx, out, [[c.op] for _, c in cs], [(o.label, o.files) for o, _ in cs], env=w.env)
    # 5. traced: which files are touched
    log = os.path.join(ctx.dir, "trace.%d" % i)
    cs = [(c, c.with_outs(".t%d" % k)) for k, c in enumerate(w.calls)]
    if ctx.exes.get("trace") and i % 3 == 0:
        for _, c in cs:
            outs |= set(c.outs)
        v = Variant("traced", "plain", cs, False, wrap=TRACE + ["-o", log])
        run_variant(ctx, w, v, out, r)
        trace(w, cs, log, out, ctx)
    after = snapshot(d, (w.db.path, w.db.home))
    known = {os.path.normpath(os.path.join(d, o)) for o in outs}
    for p, k in after.items():
        if p in before and before[p] != k and p not in known:
            if stat.S_ISDIR(k[0]) and before[p][:2] == k[:2]:
                continue
            out.bad("a file that is not an output changed", "%s %s -> %s" % (p, before[p], k), {}, [])
        elif p not in before and p not in known and not p.startswith(side):
            out.bad("a file nobody asked for appeared", p, {"file": p} if os.path.isfile(p) else {}, [])
    for p in before:
        if p not in after:
            out.bad("a file disappeared", p, {}, [])
    if snapshot(side) != moved:
        out.bad("an input changed", "below %s" % side, {}, [])
    if w.input_state() != state:
        out.bad("an input changed", "contents or times of packages, deltas, lists or installed files", {}, [])
    if w.db.snapshot() != dbs:
        out.bad("the database changed", w.db.path, {}, [])
    out.add("files_watched", len(after))
    out.add("input_states_compared")
    new = temps() - t0
    out.add("temporary_files_of_others", len(new))
    out.sample("%d calls, %d files watched" % (len(w.calls), len(after)))


WRITE = re.compile(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND")


def trace(w, cs, log, out, ctx):
    outs = set()
    for _, c in cs:
        outs |= {os.path.normpath(o) for o in c.outs}
    # operations that are refused still name their output
    for _, c in cs:
        if c.op[0] == "apply":
            outs.add(c.op[3])
        elif c.op[0] == "make":
            outs.add(c.op[3])
            outs |= set(re.findall(r"seqfile=([^,]*)", c.op[4]))
    try:
        lines = open(log, errors="replace").read().splitlines()
        os.unlink(log)
    except OSError:
        out.add("traces_unavailable")
        return
    n = 0
    for ln in lines:
        m = LINE.match(ln)
        if not m:
            continue
        call, args, ret = m.groups()
        n += 1
        paths = re.findall(r'"([^"]*)"', args) + re.findall(r"^\d+<([^>]*)>", args)
        if call in ("open", "openat", "creat"):
            if call != "creat" and not WRITE.search(args):
                out.add("opened_for_reading")
                continue
        for p in paths:
            p = os.path.normpath(p)
            if p in outs or p.startswith((w.db.path, w.db.home, ctx.dir + "/err", "/dev/", "/tmp/drpmpage", "/proc/")):
                out.add("traced_allowed")
                continue
            out.bad("a file that is not an output is touched (%s)" % call, ln[:300], {}, [])
    out.add("traced_operations", n)


def main():
    c = Check("P16", "exploration", "distinct = (way of running, kind of call, return code)",
              ["files the RPM library itself keeps in the database directory are not the library's doing", "temporary files are allowed while a call runs"])
    c.build(["plain", "pattern", ("memcheck", B.fault_args("memcheck"))])
    if shutil.which("strace"):
        import subprocess
        if subprocess.run(["strace", "-o", "/dev/null", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            c.exes["trace"] = "strace"
    n = 1500 if c.thorough() else 64
    c.map(unit, n)
    t = c.total.counts
    c.extra["tracing"] = "strace" if c.exes.get("trace") else "not available here"
    c.finish(t.get("calls_compared", 0), {"calls_compared": n * 80, "variants_run": n * 4, "files_watched": n * 20, "calls_under_memcheck": n * 4})


if __name__ == "__main__":
    main()
