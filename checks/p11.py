"""P11: every single failing allocation, and every failing tail of allocations, is survived and reported."""
import os
import build as B
import prelink
import work
from run import Check, crashed, run_packed
from p10 import leaks, leak_text

PER = {"quick": 60, "thorough": 4000}


def points(r, n, places, tier):
    """Which calls of the library (by number) fail, alone or with everything after them: each when there are few, else some from
    every place in the library that makes such calls (as told by call site and caller's call site) and some anywhere."""
    lim = PER[tier]
    if n <= lim // 2:
        return [(q, s) for q in range(1, n + 1) for s in ("", "+")]
    out = set()
    for pl in places:
        for q in (pl if tier != "quick" else r.sample(pl, min(len(pl), 2))):
            out.add((q, r.choice(["", "", "+"])))
    if len(out) > 2 * lim:
        out = set(r.sample(sorted(out), 2 * lim))
    for q in r.sample(range(1, n + 1), min(n, lim // 3 if tier == "quick" else lim)):
        out.add((q, r.choice(["", "+"])))
    return sorted(out)


def unit(ctx, r, i, out, kinds=("alloc", "dep"), only=None, what="allocation"):
    d = ctx.fresh()
    big = i < 3 if ctx.tier == "quick" else i % 5 == 0      # the long ones start first
    w = work.Work(ctx, r, d, maxlen=100000 if big else r.choice([300, 1500]), nfiles=8 if big else r.choice([1, 2, 3]), big=big,
                  failing=False, tgt_none=only is None)
    fl = "small" if i % 2 == 0 or big else "asanf"
    drv = ctx.drv(fl, env=w.env, leak=True)
    w.baseline(ctx.drv(fl, env=w.env), out)
    calls = [c for c in w.calls if c.rc == 0]
    out.add("calls_that_fail_unhindered", len(w.calls) - len(calls))
    r.shuffle(calls)
    if ctx.tier == "quick":
        if big:                                          # with buffers that grow more than once
            first = [c for c in calls if c.label in ("make/standard", "make/sequence file", "make/patches")][:1]
            first += [c for c in calls if c.label == "make/large" and c.op[4].find("comp=%d:" % (i % 3 + (5, 3, 1)[i // 3 % 3])) >= 0]
            calls = first + [c for c in calls if c not in first]
        calls = calls[:6 if big else 7]
    st = ctx.drv(fl, env=w.env).run([[["fault count"] + c.op] for c in calls])
    units, meta = [], []
    for c, g in zip(calls, st):
        if crashed(g, 1):
            continue
        for kind in kinds:
            n = g["ops"][0].get("c" + kind, 0)
            out.add("points_%s" % kind, n)
            pl = g["ops"][0].get("places", {}).get(kind, [])
            out.add("places_%s" % kind, len(pl))
            for q, s in points(r, n, pl, ctx.tier):
                units.append([["fault %s:%d%s" % (kind, q, s)] + c.op, c.op])
                meta.append((c, kind))
    # each unit runs the call with the fault, then again without it; outputs are removed before each run by the driver's caller
    for c in calls:
        c.clear()
    for j in range(0, len(units), 400):
        _judge(ctx, r, out, drv, units[j:j + 400], meta[j:j + 400], w, what)


def getters_failed(f, c):
    """A read whose getters each gave the normal answer or reported running out of memory without writing anything."""
    if c.kind() != "read" or f["rc"] or not f.get("tags"):
        return False
    base, oom = c.stats["tags"], False
    for t, v in f["tags"].items():
        b = base[t]
        if any(x != y and x != 1 for x, y in zip(v["rc"], b["rc"])) or ("touched" in v and 1 not in v["rc"]):
            return False
        oom = oom or v["rc"] != b["rc"]
        if any(v[k] != b[k] for k in v if k not in ("rc", "touched")):
            return False
    return oom


def _judge(ctx, r, out, drv, units, meta, w, what):
    # one driver run per slice; the driver keeps the outputs of a faulted call apart by naming them after the unit
    named, keep = [], []
    for n, (u, (c, kind)) in enumerate(zip(units, meta)):
        a, b = c.with_outs(".f%d" % n), c.with_outs(".g%d" % n)
        named.append([[u[0][0]] + a.op, b.op])
        keep.append((c, kind, a, b))
    for u, g, (c, kind, a, b) in zip(named, run_packed(drv, named, per=6), keep):
        k = crashed(g, 2)
        spec = u[0][0].split()[1]
        out.add("faulted_calls")
        if k and "LeakSanitizer" not in k[0]:
            o = g["ops"][0] if g["ops"] else {}
            out.bad("%s: %s in %s" % (kind, k[0], c.kind()), "%s, %s at %s\n%s" % (c.label, spec, o.get("fsite"), k[1]), c.files, u)
            continue
        f, again = g["ops"]
        rc, body, data = a.outcome(f)
        rc2, body2, data2 = b.outcome(again)
        where = "%s, %s %s at %s" % (c.label, what, spec, f.get("fsite"))
        if not f.get("fired"):
            out.add("not_reached")
        else:
            out.add("fired_" + kind)
            out.add("reported" if rc else "completed")
            out.add("rc_%d" % rc)
            out.sig((kind, f.get("fsite"), c.kind(), rc))
            out.sample("%s -> %d" % (where, rc))
        if rc not in range(11):
            out.bad("%s: undocumented code %d" % (kind, rc), where, c.files, u)
        if rc == 0 and f.get("opts") != c.stats.get("opts") and all(x == y or x == 1 for x, y in zip(f["opts"], c.stats["opts"])):
            out.add("setters_reported")
        elif rc == 0 and kind == "eof" and c.label == "make/rpm-only identity":
            out.add("undetectable_truncation")           # the payload is taken as it is
        elif rc == 0 and getters_failed(f, c):
            out.add("getters_reported")
        elif rc == 0 and (body, data) != (c.body, c.data):
            out.bad("%s: wrong result reported as success by %s" % (kind, c.kind()), where, dict(c.files, **{"out%d" % n: x for n, x in enumerate(a.outs)}), u)
        if (rc2, body2, data2) != (c.rc, c.body, c.data):
            out.bad("%s: later call differs after %s" % (kind, c.kind()), "%s: then %d instead of %d" % (where, rc2, c.rc), c.files, u)
        for o in (f, again):
            if o["fd"]:
                out.bad("%s: descriptors leaked by %s" % (kind, c.kind()), "%s: %+d %s" % (where, o["fd"], o.get("fds")), c.files, u)
            if o["leak"] and leaks(g["err"], o):
                out.bad("%s: memory leaked by %s" % (kind, c.kind()), where + "\n" + leak_text(g["err"]), c.files, u)
                break
        left = [p for p, ex in f.get("wrote", []) if ex and p not in a.outs]
        if left:
            out.bad("%s: temporary file left by %s" % (kind, c.kind()), "%s %r" % (where, left), c.files, u)
            for p in left:
                if p.startswith("/tmp/drpm"):
                    os.unlink(p)
        for x in (a, b):
            x.clear()


def main():
    c = Check("P11", "fault_enumeration", "distinct = (kind, failing call site, API call, return code)",
              ["allocations of the library itself and out-of-memory reports of the compression libraries; not those inside librpm and libc"])
    c.build([("asanf", B.fault_args("asan")), ("small", B.fault_args("asansmall"))])
    prelink.stand_in(c)
    n = 100 if c.thorough() else 24
    c.map(unit, n)
    t = c.total.counts
    c.finish(t.get("faulted_calls", 0), {"fired_alloc": n * 100, "fired_dep": n * 5, "reported": n * 50})
