"""P12: failing, short and truncated input and output is reported, or made good; success means complete outputs."""
import os, resource, shutil, subprocess
import build as B
import p11
import prelink
import work
from run import Check, crashed, run_packed
from p01 import write


def faults(ctx, r, i, out):
    """Every I/O operation the library makes fails, transfers less, or reports end of file."""
    p11.unit(ctx, r, i, out, kinds=("io", "short", "eof"), only="io", what="operation")


def environment(ctx, r, i, out):
    """Real obstacles: full device, size limit, directories in place of files, missing directories, no descriptors, no permission."""
    d = ctx.fresh()
    w = work.Work(ctx, r, d, maxlen=r.choice([1500, 9000, 60000]), nfiles=r.choice([2, 5, 9]), big=r.random() < 0.5, failing=False, tgt_none=False)
    fl = "small" if i % 2 else "asanf"
    w.baseline(ctx.drv(fl, env=w.env), out)
    drv = ctx.drv(fl, env=w.env, leak=i % 4 == 0)
    calls = [c for c in w.calls if c.rc == 0]
    for c in calls:
        c.clear()
    units, meta = [], []

    def add(c, op, how):
        units.append([op])
        meta.append((c, how))
    adir = os.path.join(d, "a-directory")
    os.mkdir(adir)
    for c in calls:
        for o in c.outs:
            for to, how in (("/dev/full", "full device"), (adir, "directory"), (os.path.join(d, "missing", "x"), "missing directory"),
                            (os.path.join(w.old, "x"), "below a file"), (os.path.join(d, "n" * 300), "name too long")):
                c2 = [x if x == o or not x.endswith("seqfile=" + o) else x for x in c.op]
                op = [x.replace("seqfile=" + o, "seqfile=" + to) if "seqfile=" in x else to if x == o else x for x in c2]
                if op != c.op:
                    add(c, op, "output %s: %s" % ("sequence" if o.endswith("seq") else "file", how))
        for j, x in enumerate(c.op[1:], 1):
            if x in w.inputs:
                for to, how in ((adir, "directory"), (os.path.join(d, "missing"), "missing"), (os.path.join(x, "y"), "below a file"),
                                ("/dev/null", "empty")):
                    add(c, c.op[:j] + [to] + c.op[j + 1:], "input %d: %s" % (j, how))
                b = work.read(x)
                for cut in {0, 1, len(b) - 1, r.randrange(len(b)), r.randrange(len(b))}:
                    if x == w.old and c.kind() == "apply" and "installed" not in c.label and cut > 5000:
                        continue                       # a standard delta need not use the end of the old package
                    if c.label == "make/rpm-only identity" and cut > 100:
                        continue                       # the payload is taken as it is
                    t = os.path.join(d, "cut%d" % len(units))
                    write(t, b[:cut])
                    add(c, c.op[:j] + [t] + c.op[j + 1:], "input %d: cut" % j)
    for u, g, (c, how) in zip(units, run_packed(drv, units, per=8), meta):
        judge(out, c, g, u, how, must=True if "cut" not in how else None)
    # descriptors run out after n more, files are limited in size: one driver process for each limit
    for lim in r.sample(range(0, 12), 4):
        limited(ctx, out, w, calls, fl, "nofile", lim)
    for lim in (0, r.choice([1, 97, 500]), r.randrange(0, 3000), 8191):
        limited(ctx, out, w, calls, fl, "fsize", lim)
    # installed files that are unreadable or vanish
    fs = [c for c in calls if c.label in ("apply/installed files", "check/standard", "seq/full", "seq/sizes")]
    for base, ds, fn in os.walk(w.root):
        for f in fn:
            q = os.path.join(base, f)
            if os.path.islink(q) or not os.path.isfile(q) or os.path.getsize(q) == 0:
                continue
            k = r.choice(["delete", "empty", "cut", "directory", "loop"])
            keep = work.read(q)
            os.unlink(q)
            if k == "empty":
                write(q, b"")
            elif k == "cut":
                write(q, keep[:r.randrange(len(keep))])
            elif k == "directory":
                os.mkdir(q)
            elif k == "loop":
                os.symlink(q, q)
            res = run_packed(drv, [[c.op] for c in fs], per=8)
            for c, g in zip(fs, res):
                judge(out, c, g, [c.op], "installed file: " + k, must=None)
            shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q) if os.path.lexists(q) else None
            write(q, keep)


def limited(ctx, out, w, calls, fl, what, lim):
    if what == "nofile":                               # librpm and libgcrypt do not survive this
        calls = [c for c in calls if c.kind() in ("make", "read") or c.label in ("apply/standard", "apply/rpm-only", "seq/package")]
    env = dict(DRPMV_LIMIT="%s:%d" % (what, lim))
    drv = ctx.drv(fl, env=dict(w.env, **env))
    # the limit holds around the call only (the driver sets it), so the sanitizer and the driver itself are not hampered
    for c, g in zip(calls, run_packed(drv, [[c.op] for c in calls], per=8)):
        judge(out, c, g, [c.op], "%s limit %s" % (what, lim if what == "nofile" else "small"), must=None, partial=True)


def w_dir(c):
    return os.path.dirname(next((x for x in c.op if x.startswith("/")), "/nowhere/"))


def judge(out, c, g, u, how, must, partial=False):
    out.add("obstacles")
    what = "%s: %s (%s)" % (c.label, how, u)
    k = crashed(g, 1)
    if k and "LeakSanitizer" not in k[0]:
        out.bad("%s: %s in %s" % (how, k[0], c.kind()), what + "\n" + k[1], c.files, u)
        return
    o = g["ops"][0]
    rc = o["rc"]
    out.add("rc_%d" % rc)
    short = how.split(":")[0]
    if o["fd"] and partial:                            # librpm loses descriptors of a database it cannot use
        fds = [x for x in o.get("fds", "").split(";") if x and "/rpmdb/" not in x and not x.startswith("pipe:")]
        o["fd"] = len([x for x in fds if w_dir(c) in x])
    if o["fd"] or o["leak"] and p11.leaks(g["err"], o):
        out.bad("%s: leak in %s" % (short, c.kind()), "%s -> %d %s %s" % (what, rc, o.get("fds"), p11.leak_text(g["err"]) if o["leak"] else ""), c.files, u)
    if rc not in range(11):
        out.bad("undocumented code %d" % rc, what, c.files, u)
    if rc == 0:
        if any(o.get("opts", [])):
            return
        if must or must is None and c.outcome(o) != (c.rc, c.body, c.data):
            out.bad("%s: success reported by %s" % (how, c.kind()), what, dict(c.files, **{"out%d" % n: x for n, x in enumerate(c.outs)}), u)
        else:
            out.add("completed_exactly")
    else:
        out.add("reported")
        out.sig((c.label, how, rc))
        out.sample("%s: %s -> %d" % (c.label, how, rc))
    c.clear()


def both(ctx, r, i, out):
    (environment if i % 3 == 2 else faults)(ctx, r, i, out)


def main():
    c = Check("P12", "fault_enumeration", "distinct = (kind, failing operation or obstacle, API call, return code)",
              ["faults are injected in the library's own calls to libc and librpmio, not inside librpm's database code",
               "a truncation that leaves a well-formed shorter file (uncompressed payload of a new package) is not detectable and not generated"])
    c.build([("asanf", B.fault_args("asan")), ("small", B.fault_args("asansmall"))])
    prelink.stand_in(c)
    n = 100 if c.thorough() else 12
    c.map(both, 2 * n)
    t = c.total.counts
    c.finish(t.get("faulted_calls", 0) + t.get("obstacles", 0),
             {"fired_io": n * 20, "fired_short": n * 10, "fired_eof": n * 5, "obstacles": n * 100, "reported": n * 50})
