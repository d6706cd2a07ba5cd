"""P10: no call leaks memory, descriptors, temporary files or processes, however it ends."""
import os, re
import build as B
import prelink
import work
from run import Check, classify, crashed, run_packed

REP = 5


def leaks(err, o):
    """The leak records of a report other than those of headers librpm itself lost when it refused them."""
    rec = re.split(r"\n(?=(?:Direct|Indirect) leak of )", err)[1:]
    if o.get("hnull", 0) and not o.get("hrefs", 0):
        rec = [x for x in rec if not re.search(r" in header(Read|Import) ", x)]
    return rec


def judge(out, c, o, what, files, script, when, err):
    """The monitors' observations about one call."""
    if o["fd"]:
        out.bad("descriptors leaked: " + c.kind() + when, "%s rc=%d: %+d: %s" % (what, o["rc"], o["fd"], o.get("fds")), files, script)
    if o.get("badclose"):
        out.bad("descriptor closed that is not open: " + c.kind() + when, "%s rc=%d" % (what, o["rc"]), files, script)
    if o["leak"] and leaks(err, o):
        out.bad("memory leaked: " + c.kind() + when, "%s rc=%d\n%s" % (what, o["rc"], leak_text(err)), files, script)
    elif o["leak"]:
        out.add("leaks_inside_librpm")
    if o.get("hrefs", 0):
        out.bad("header references leaked: " + c.kind() + when, "%s rc=%d %+d" % (what, o["rc"], o["hrefs"]), files, script)
    if "child" in o and "LeakSanitizer" not in err:      # a report leaves the symbolizer running
        out.bad("process left: " + c.kind() + when, "%s rc=%d pid %d" % (what, o["rc"], o["child"]), files, script)
    left = [p for p, ex in o.get("wrote", []) if ex and p not in c.outs]
    if left:
        out.bad("temporary file left: " + c.kind() + when, "%s rc=%d %r" % (what, o["rc"], left), files, script)
        for p in left:
            if p.startswith("/tmp/drpm"):
                os.unlink(p)
    out.add("calls_observed")
    out.add("temporary_files_seen", o.get("ntemp", 0))
    out.add("descriptors_opened", o.get("nop", 0))
    out.add("failed_calls" if o["rc"] else "successful_calls")
    out.sig((c.label, o["rc"], when, o.get("fsite")))


def leak_text(err, n=5000):
    i = err.find("ERROR: LeakSanitizer")
    return err[max(0, i):][:n]


def unit(ctx, r, i, out):
    d = ctx.fresh()
    big = i % 4 == 0
    w = work.Work(ctx, r, d, maxlen=60000 if big else r.choice([800, 3000]), nfiles=8 if big else r.choice([2, 4]), big=big)
    fl = ["small", "asanf", "small4"][i % 3]
    drv = ctx.drv(fl, env=w.env, leak=True, mem=True)
    w.baseline(ctx.drv(fl, env=w.env), out)
    # the same call repeated in one process: nothing may accumulate
    groups = [[c.op] * REP for c in w.calls]
    for c, g, grp in zip(w.calls, drv.run(groups), groups):
        k = crashed(g, REP)
        if k and "LeakSanitizer" not in k[0]:
            out.add("left_to_other_checks")
            continue
        for o in g["ops"]:
            judge(out, c, o, c.label, c.files, grp, "", g["err"])
        m = [o.get("mem", 0) for o in g["ops"]]
        if len(m) == REP and all(m[j + 1] > m[j] for j in range(1, REP - 1)) and not any(o["leak"] for o in g["ops"]):
            out.bad("memory grows with every call: " + c.kind(), "%s rc=%s bytes in use after each call: %r" % (c.label, c.rc, m), c.files, grp)
        out.add("repetition_series")
    # failing at chosen points
    units, meta = [], []
    for c in w.calls:
        if c.rc:
            continue
        s = drv_stats(ctx, w, fl, c)
        if s is None:
            continue
        for kind in ("io", "short", "eof", "alloc", "dep"):
            n = s.get("c" + kind, 0)
            if not n:
                continue
            m = 5 if ctx.tier == "quick" else 80
            pts = range(1, n + 1)
            if n > m:                                  # from places in the library picked at random, and anywhere
                pl = s.get("places", {}).get(kind) or [[1]]
                pts = sorted({r.choice(x) for x in r.sample(pl, min(len(pl), m - 1))} | {r.randrange(1, n + 1)})
            for q in pts:
                units.append([["fault %s:%d%s" % (kind, q, r.choice(["", "", "+"]))] + c.op])
                meta.append(c)
    for c, u, g in zip(meta, units, run_packed(drv, units, per=10)):
        k = crashed(g, 1)
        if k and "LeakSanitizer" not in k[0]:
            out.add("left_to_other_checks")
            continue
        o = g["ops"][0]
        out.add("fault_fired" if o.get("fired") else "fault_not_reached")
        judge(out, c, o, "%s with %s at %s" % (c.label, u[0][0], o.get("fsite")), c.files, u, " (after %s fault)" % u[0][0].split()[1].split(":")[0], g["err"])
        out.sample("%s, %s at %s -> %d" % (c.label, u[0][0], o.get("fsite"), o["rc"]))


def drv_stats(ctx, w, fl, c):
    g = ctx.drv(fl, env=w.env).run([[["fault count"] + c.op]])[0]
    return g["ops"][0] if crashed(g, 1) is None else None


def main():
    c = Check("P10", "exploration", "distinct = (call, return code, injected fault and its site) after which descriptors, leaks, "
              "children and files were counted",
              ["memory is what the address sanitizer's allocator hands out, including to librpm and the compression libraries"])
    c.build([("asanf", B.fault_args("asan")), ("small", B.fault_args("asansmall")), ("small4", B.fault_args("asansmall4"))])
    prelink.stand_in(c)
    n = 600 if c.thorough() else 14
    c.map(unit, n)
    c.finish(c.total.counts.get("calls_observed", 0), {"calls_observed": n * 200, "fault_fired": n * 50, "failed_calls": n * 40,
                                                       "temporary_files_seen": n, "successful_calls": n * 40})
