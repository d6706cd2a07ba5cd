"""P03: rebuilding from installed files gives exactly the target package, or an error."""
import os
import deltafmt as D
import dgen
import fslib
import gen as G
import rpmgen as R
from run import Check, crashed, made, run_packed
from p01 import write

ARGS, NOINSTALL = 2, 10


def unit(ctx, r, i, out):
    d = ctx.fresh()
    db = fslib.Db(d)
    units, meta, heads, plan = [], [], [], []
    for k in range(5):
        big = r.random() < 0.3
        source = r.random() < 0.1
        root = os.path.join(d, "r%d" % k)
        p = fslib.pair(ctx, r, root, b"pkg%d" % k, source=source, maxlen=r.choice([20000, 60000]) if big else r.choice([300, 3000, 9000]),
                       nfiles=None if r.random() < 0.5 else r.choice([4, 8, 70]), grid=True if k == 0 and i % 3 == 0 else None)
        old = R.RpmParts(p.oldb)
        a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
        write(a, p.oldb)
        write(b, p.newb)
        installed = r.random() < 0.92
        if installed:
            vs = fslib.variants(ctx, r, p.old)
            hs = [old.header] + [v.header for v in vs]
            r.shuffle(hs)
            heads += hs
            out.add("other_versions_installed", len(hs) - 1)
        for m in range(4):
            f = os.path.join(d, "%d.%d.drpm" % (k, m))
            x = dict(p=p, k=k, delta=f, root=root, installed=installed, source=source, old=a)
            if m < 2:
                dl, ob, exp = dgen.make_delta(r, p, ctx.helper, big, rpmonly=r.random() < 0.08)
                write(f, ob)
                x.update(dl=dl, exp=exp, how="generated")
            else:
                spec, o = G.options(r, p.new.comp, allow_v1=False, rpmonly=None if r.random() < 0.1 else False)
                units.append([("make", a, b, f, spec)])
                x.update(dl=None, exp=p.newb, how="made " + spec)
            plan.append(x)
    if heads:
        db.add(heads)
    else:
        db.add([R.RpmParts(G.pair(r, ctx.helper, name=b"other").oldb).header])
    for g, u in zip(run_packed(ctx.drv(), units), units):
        c = crashed(g, 1)
        if c or g["ops"][0]["rc"]:
            out.bad("make", repr(c or g["ops"]), {}, u)
            return
    for x in plan:
        if x["dl"] is None:
            x["dl"] = made(ctx, x["delta"])
    for rnd in range(4):
        done = {}
        if rnd:
            for x in plan:
                if x["k"] in done:
                    continue
                fslib.shutil.rmtree(x["root"])
                os.makedirs(x["root"])
                fslib.install(x["p"].old.files)
                fl = D.file_list(R.RpmParts(x["p"].oldb))
                reg = [f for f in fl if f.isreg and os.path.isfile(os.fsdecode(f.name)) and not os.path.islink(os.fsdecode(f.name))]
                ch = {}
                for f in r.sample(reg, min(len(reg), r.choice([1, 1, 2, 5]))):
                    try:
                        ch[f.name] = fslib.mutate(r, os.fsdecode(f.name))
                    except OSError:
                        pass
                done[x["k"]] = ch
        units = []
        for n, x in enumerate(plan):
            x["out"] = os.path.join(d, "%d.%d.out" % (rnd, n))
            units.append([("apply", "-", x["delta"], x["out"])])
        for fl_ in ("small4" if i % 3 == 1 else "small", "asan"):
            for g, u, x in zip(run_packed(ctx.drv(fl_, env=db.env), units), units, plan):
                judge(ctx, out, rnd, done.get(x["k"], {}), fl_, g, u, x)
                if os.path.exists(x["out"]):
                    os.unlink(x["out"])


def judge(ctx, out, rnd, changed, fl_, g, u, x):
    dl, p = x["dl"], x["p"]
    out.add("applications")
    what = "%s v%d %s, delta %s, tgt %s, %d files, ext %d, copies %d, installed=%s, changed=%s (%s caches)" % (
        "rpm-only" if dl.rpmonly else "standard", dl.version, x["how"], dl.comp, dl.tgt_comp, len(p.old.files), dl.ext_len,
        len(dl.ext_copies), x["installed"], changed, fl_)
    fb = {"old.rpm": p.oldb, "delta.drpm": x["delta"], "expected.rpm": x["exp"], "out.rpm": x["out"]}
    c = crashed(g, 1)
    if c:
        out.bad("crash: " + c[0], what + "\n" + c[1], fb, u)
        return
    o = g["ops"][0]
    rc = o["rc"]
    if rc not in range(11):
        out.bad("undocumented code %d" % rc, what, fb, u)
    if dl.rpmonly or x["source"]:
        # a source package must also be installed for this to be noticed; either way it is an error
        want = {ARGS} if dl.rpmonly or x["installed"] else {ARGS, NOINSTALL}
        if rc not in want:
            out.bad("refusal code %d" % rc, what, fb, u)
        out.add("refused_kind")
        return
    if not x["installed"]:
        if rc != NOINSTALL:
            out.bad("not installed, code %d" % rc, what, fb, u)
        out.add("refused_not_installed")
        return
    fl = D.file_list(R.RpmParts(p.oldb))
    needed = {fl[i].name for i in D.seq_decode(dl.sequence)}
    touched = needed & set(changed)
    try:
        same = rc == 0 and open(x["out"], "rb").read() == x["exp"]
    except OSError:
        same = False
    if not touched:
        if rc:
            out.bad("refused with %d though the files are unmodified" % rc, what, fb, u)
        elif not same:
            out.bad("output differs", what, fb, u)
        else:
            out.add("rebuilt_exactly")
            out.add("rebuilt_beside_unrelated_changes", 1 if changed else 0)
            out.sig((x["how"].split()[0], fl_, dl.version, dl.comp, dl.tgt_comp, len(p.old.files), dl.ext_len))
            out.sample(what)
    else:
        if rc == 0 and not same:
            if getattr(dl, "md5_kind", "full") != "none-and-unsigned":
                out.bad("success with another output", what, fb, u)
        for n in touched:
            out.add("changed_" + changed[n])
        out.add("changed_rebuilt" if rc == 0 else "changed_refused")


def main():
    c = Check("P03", "exploration", "distinct = (origin, cache size, version, compressions, number of files, external length) of a target "
              "rebuilt from installed files and compared byte for byte",
              ["the RPM database is a scratch sqlite database filled through rpmdb --importdb", "files are not changed during the call",
               "prelink is not installed; P20 covers it"])
    import build as B
    c.build(["asan", ("small", B.fault_args("asansmall")), ("small4", B.fault_args("asansmall4"))])
    n = 1500 if c.thorough() else 60
    c.map(unit, n)
    c.finish(c.total.counts.get("applications", 0), {"rebuilt_exactly": n * 40, "changed_refused": n, "refused_not_installed": n // 4,
                                                     "refused_kind": n // 2, "rebuilt_beside_unrelated_changes": n // 4})
