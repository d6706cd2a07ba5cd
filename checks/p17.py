"""P17: independent calls in different threads do not interfere."""
import hashlib, os
import build as B
import work
from run import Check, Drv, classify, crashed


def unit(ctx, r, i, out):
    d = ctx.fresh()
    w = work.Work(ctx, r, d, npairs=2, maxlen=r.choice([600, 4000, 60000]) if i % 2 else 1500, failing=i % 2 == 0)
    w.baseline(Drv(ctx.exes["plain"], ctx.dir, cpu=60, stuck=True, env=w.env), out)
    for c in w.calls:
        c.clear()
    groups, plan = [], []
    n = 0
    for q in range(10 if ctx.tier == "quick" else 40):
        k = r.choice([2, 4, 8, 8, 12])
        kind = r.randrange(5)
        if kind == 0:                                   # the same call everywhere
            cs = [r.choice(w.calls)] * k
        elif kind == 1:                                 # one kind of call
            t = r.choice(sorted({c.kind() for c in w.calls}))
            cs = [r.choice([c for c in w.calls if c.kind() == t]) for _ in range(k)]
        elif kind == 2:                                 # calls on installed files and block cache
            pool = [c for c in w.calls if c.label.startswith(("apply/", "check/", "seq/"))]
            cs = [r.choice(pool) for _ in range(k)]
        else:
            cs = [r.choice(w.calls) for _ in range(k)]
        run = []
        for c in cs:
            run.append((c, c.with_outs(".t%d" % n)))
            n += 1
        groups.append([c.op for _, c in run])
        plan.append(run)
    for fl in ("tsan", "plain"):
        res = Drv(ctx.exes[fl], ctx.dir, cpu=200, env=w.env, threads=True).run(groups)
        for g, run, ops in zip(res, plan, groups):
            out.add("concurrent_groups")
            files = {}
            for c, _ in run:
                files.update(c.files)
            k = crashed(g, len(ops))
            if k:
                out.bad("%s: %s" % (fl, k[0]), ", ".join(c.label for c, _ in run) + "\n" + k[1], files, ops)
                continue
            for (c, x), o in zip(run, g["ops"]):
                out.add("concurrent_calls")
                out.add("threads_%d" % len(ops))
                got, exp = x.outcome(o), (c.rc, c.body, c.data)
                if fl == "tsan" and got[0] == 1 and c.rc != 0:
                    out.add("huge_allocations_refused_by_the_sanitizer")
                    continue
                if got != exp:
                    out.bad("%s differs when run beside others" % c.kind(), "%s: %r instead of %r, beside %s" % (c.label, got, exp, [y.label for y, _ in run]),
                            files, ops)
            out.sig(tuple(sorted(c.label.split(" ")[0] for c, _ in run)))
            for _, x in run:
                x.clear()
    out.sample("%d groups, for instance %s" % (len(plan), [c.label for c, _ in plan[0]]))


def main():
    c = Check("P17", "exploration", "distinct = sets of calls run concurrently",
              ["ThreadSanitizer sees the library's own code, not the code of librpm and the compression libraries"])
    c.build(["plain", "tsan"])
    n = 600 if c.thorough() else 40
    c.map(unit, n, workers=3)
    t = c.total.counts
    c.finish(t.get("concurrent_calls", 0), {"concurrent_groups": n * 15, "concurrent_calls": n * 60})


if __name__ == "__main__":
    main()
