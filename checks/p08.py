"""P08: no memory error or undefined behaviour on hostile deltas."""
import os
import build as B
import deltafmt as D
import dgen
import fslib
import fuzz
import gen as G
import hostile
import rpmgen as R
from run import Check, crashed, memchecked, run_packed
from p01 import write


def deltas(ctx, r, d, nper):
    """[(pair, old path, delta, bytes)] with the old packages installed in a scratch database."""
    db = fslib.Db(d)
    out, heads = [], []
    for k in range(2):
        fs = r.random() < 0.6
        big = r.random() < 0.3
        kw = dict(maxlen=r.choice([30000, 60000]) if big else r.choice([300, 3000]), nfiles=r.choice([1, 3, 6]))
        p = fslib.pair(ctx, r, os.path.join(d, "r%d" % k), b"pkg%d" % k, source=False, **kw) if fs else G.pair(r, ctx.helper, **kw)
        p.fs = fs
        a = os.path.join(d, "%d.old.rpm" % k)
        write(a, p.oldb)
        heads.append(R.RpmParts(p.oldb).header)
        for m in range(nper):
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, big, nodiff=r.random() < 0.06)
            out.append((p, a, dl, ob))
    db.add(heads)
    return db, out


def unit(ctx, r, i, out):
    d = ctx.fresh()
    db, ds = deltas(ctx, r, d, 3)
    units, want = [], []
    others = [(dl, ob) for _, _, dl, ob in ds]
    for p, a, dl, ob in ds:
        for q in range(14):
            lab, b = hostile.delta(r, dl, ob, ctx.helper, others)
            f = os.path.join(d, "%d.bad" % len(units))
            write(f, b)
            ops = [("read", f), ("apply", a, f, os.path.join(d, "x.out")), ("check", f, r.choice([1, 2]))]
            if p.fs:
                ops.append(("apply", "-", f, os.path.join(d, "x.out")))
            units.append(ops)
            want.append((("rpm-only " if dl.rpmonly else "standard ") + lab, b, p))
    if i % 8 == 1:
        s = r.sample(range(len(units)), min(len(units), 40))
        memchecked(ctx, out, [units[j] for j in s], [(want[j][0], {"bad.drpm": want[j][1], "old.rpm": want[j][2].oldb}) for j in s], env=db.env)
    fl = "small" if i % 2 else "asan"
    for g, u, (what, b, p) in zip(run_packed(ctx.drv(fl, env=db.env), units, per=14), units, want):
        out.add("hostile_deltas")
        out.add("calls", len(u))
        c = crashed(g, len(u))
        if c and c[0].startswith("no answer"):
            out.add("no_answer_left_to_P13")
            continue
        if c:
            out.bad(c[0], what + "\n" + c[1], {"bad.drpm": b, "old.rpm": p.oldb}, u)
            continue
        for o in g["ops"]:
            out.add("rc_%d" % o["rc"])
        out.sig((what, tuple(o["rc"] for o in g["ops"])))
        out.sample("%s -> %s" % (what, [o["rc"] for o in g["ops"]]))


def seeds(ctx, r, i, out):
    """Writes seed inputs and old packages for the coverage-guided stage."""
    d = os.path.join(ctx.top, "fz")
    p = G.pair(r, ctx.helper, maxlen=2000, nfiles=r.choice([1, 2, 4]), comps=["none", "gzip"], name=b"pkg")
    os.makedirs(d + "/olds", exist_ok=True)
    os.makedirs(d + "/seeds", exist_ok=True)
    write(d + "/olds/%d.rpm" % i, p.oldb)
    for m in range(6):
        dl, ob, exp = dgen.make_delta(r, p, ctx.helper, tgt_comps=["none", "gzip"], comps=["none", "none", "gzip", "zstd", "lzip", "xz", "bzip2"])
        write(d + "/seeds/%d.%d" % (i, m), bytes([i]) + ob)


def main():
    c = Check("P08", "exploration", "distinct = (mutation, results of the calls)",
              ["clang's address and undefined-behaviour sanitizers see every error in the library's own code"])
    small = B.fault_args("asansmall")
    c.build(["asan", ("small", small), ("memcheck", B.fault_args("memcheck")), ("fuzz", dict(flavour="fuzz", harness=("fuzz.c",), exe="fuzzer"))])
    n = 3000 if c.thorough() else 120
    c.map(unit, n)
    c.map(seeds, 6, workers=1, base=0)
    fuzz.stage(c, "delta", runs=400000 if c.thorough() else 5000)
    t = c.total.counts
    c.finish(t.get("calls", 0) + t.get("guided_executions", 0), {"hostile_deltas": n * 80, "rc_0": n * 10, "rc_4": n * 20, "calls_under_memcheck": n * 5})
