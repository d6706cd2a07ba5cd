"""P20: an installed file that prelink changed counts as its original, or the call fails."""
import os
import build as B
import deltafmt as D
import dgen
import fslib
import gen as G
import prelink
import rpmgen as R
from run import BadOutput, Check, crashed, made, memchecked, run_packed
from p01 import write
from p04 import FULL, SIZES

OK, IO, FORMAT, OTHER, MISMATCH, NOINSTALL = 0, 3, 4, 6, 9, 10
BROKEN = ["missing", "fail", "unlink", "killed", "short", "wrong"]
NOTRUST = {OTHER, IO, FORMAT, MISMATCH, NOINSTALL}


def alter(r, p, share):
    """Installs the old package anew, some of its files altered. Returns {name: (what was done, size now, size before)}."""
    fslib.shutil.rmtree(p.root)
    os.makedirs(p.root)
    fslib.install(p.old.files)
    st = {}
    for f in p.old.files:
        q = os.fsdecode(f.name)
        if not (f.isreg() and f.in_header and os.path.isfile(q) and not os.path.islink(q)) or r.random() >= share:
            continue
        b = open(q, "rb").read()
        k = r.random()
        if k < 0.82:
            what, x = "image", prelink.image(r, b)
        elif k < 0.88 and b:
            c = bytearray(b)
            c[r.choice([0, -1, r.randrange(len(c))])] ^= 1 << r.randrange(8)
            what, x = "image of other content", prelink.image(r, bytes(c))
        elif k < 0.92 and b:
            what, x = "image of shorter content", prelink.image(r, b[:r.choice([0, len(b) - 1, r.randrange(len(b))])])
        elif k < 0.96:
            what, x = "elf not prelinked", prelink.image(r, b, undo=False)
        else:
            i = prelink.image(r, b)
            what, x = "image cut short", i[:r.choice([len(i) - 1, len(i) - 17, r.randrange(1, len(i))])]
        open(q, "wb").write(x)
        st[f.name] = (what, len(x), len(b))
    return st


def unit(ctx, r, i, out):
    d = ctx.fresh()
    db = fslib.Db(d)
    heads, pk = [], []
    for k in range(3):
        big = r.random() < 0.5
        p = fslib.pair(ctx, r, os.path.join(d, "r%d" % k), b"pkg%d" % k, source=False, maxlen=r.choice([20000, 60000]) if big else r.choice([300, 3000, 9000]),
                       nfiles=r.choice([2, 4, 8, 14, 30]), grid=True if r.random() < 0.1 else None, links=r.choice([None, 0.4]))
        p.root = os.path.join(d, "r%d" % k)
        parts = R.RpmParts(p.oldb)
        p.fl, p.algo = D.file_list(parts), D.digest_algo(parts)
        heads.append(parts.header)
        p.deltas = []
        for m in range(4):
            f = os.path.join(d, "%d.%d.drpm" % (k, m))
            if m < 3:
                dl, ob, exp = dgen.make_delta(r, p, ctx.helper, big, rpmonly=False)
                write(f, ob)
            else:
                a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
                write(a, p.oldb)
                write(b, p.newb)
                g = ctx.drv().run([[("make", a, b, f, G.options(r, p.new.comp, allow_v1=False, rpmonly=False)[0])]])[0]
                if crashed(g, 1) or g["ops"][0]["rc"]:
                    raise BadOutput("make refused or crashed", repr(g))
                dl, exp = made(ctx, f), p.newb
                dl.md5_kind = "full"
            p.deltas.append((dl, f, exp))
        pk.append(p)
    db.add(heads)
    log = os.path.join(d, "log")
    for rnd in range(4):
        mode = ["ok", "ok", r.choice(["slow", "late", "ok"]), r.choice(BROKEN)][rnd]
        env = dict(db.env, DRPMV_PRELINK="/nowhere/prelink" if mode == "missing" else ctx.exes["unprelink"], DRPMV_PLMODE=mode, DRPMV_PLLOG=log)
        if rnd and r.random() < 0.4:
            env["DRPMV_IGNCHLD"] = "1"
        units, meta = [], []
        for p in pk:
            share = r.choice([0.15, 0.5, 1])
            st = alter(r, p, share)
            for dl, f, exp in p.deltas:
                x = f + ".out"
                idx = D.seq_decode(dl.sequence)
                sid = dl.src_nevr + "-" + dl.sequence.hex()
                units.append([("apply", "-", f, x)])
                meta.append((p, dl, st, exp, x, None))
                for m in (FULL, SIZES):
                    units.append([("check", f, m)])
                    meta.append((p, dl, st, exp, x, m))
                units.append([("seq", "-", sid, 1)])
                meta.append((p, dl, st, exp, x, 1))
        for fl in ("small", "asan"):
            if fl == "asan" and rnd % 2 == i % 2:
                continue
            for g, u, (p, dl, st, exp, x, m) in zip(run_packed(ctx.drv(fl, env=env, leak=rnd == i // 2 % 4), units, per=8), units, meta):
                judge(out, mode, env, fl, g, u, p, dl, st, exp, x, m)
                if os.path.exists(x) and m is None:
                    os.unlink(x)
        if i % 8 == 3 and rnd < 2:
            js = r.sample(range(len(units)), min(len(units), 16))
            memchecked(ctx, out, [units[j] for j in js], [("%s %s" % (mode, sorted(set(v[0] for v in meta[j][2].values()))), {"old.rpm": meta[j][0].oldb})
                                                          for j in js], env=env)
        if rnd == i % 2:
            faults(ctx, r, out, mode, env, units, meta)
    if os.path.exists(log):
        out.add("runs_of_prelink", sum(1 for _ in open(log)))


def faults(ctx, r, out, mode, env, units, meta):
    """Something fails on the way: the outcome is still right or an error, with nothing left behind."""
    js = [j for j in r.sample(range(len(units)), min(len(units), 30)) if any(v[0] == "image" for v in meta[j][2].values())][:4]
    drv = ctx.drv("small", env=env, leak=True)
    fu, fm = [], []
    for j in js:
        g = drv.run([[["fault count"] + list(units[j][0])]])[0]
        if crashed(g, 1):
            continue
        for kind in ("io", "alloc", "short", "eof"):
            pl = g["ops"][0].get("places", {}).get(kind) or []
            for x in r.sample(pl, min(len(pl), 7)):
                y = "%s.%d" % (meta[j][4], len(fu))
                op = [y if z == meta[j][4] else z for z in units[j][0]]
                fu.append([["fault %s:%d%s" % (kind, r.choice(x), r.choice(["", "", "+"]))] + op])
                fm.append(meta[j][:4] + (y,) + meta[j][5:])
    for g, u, (p, dl, st, exp, x, m) in zip(run_packed(drv, fu, per=8), fu, fm):
        if crashed(g, 1) is None:
            out.add("faults_fired" if g["ops"][0].get("fired") else "faults_not_reached")
        judge(out, mode, env, "small", g, u, p, dl, st, exp, x, m, faulted=True)


def judge(out, mode, env, fl, g, u, p, dl, st, exp, x, m, faulted=False):
    idx = D.seq_decode(dl.sequence)
    need = [p.fl[i] for i in idx if p.fl[i].isreg and p.fl[i].size]
    ch = {f.name: st[f.name] for f in need if f.name in st}
    if faulted:
        u = [tuple(u[0])]
    what = "%s, prelink %s%s, %s, %d files needed, altered %s, copies %d of %d" % (
        u[0], mode, ", SIGCHLD ignored" if "DRPMV_IGNCHLD" in env else "", fl, len(need), [(n[-20:], v) for n, v in ch.items()][:12],
        len(dl.ext_copies), dl.ext_len)
    fb = {"old.rpm": p.oldb, "delta.drpm": next((y for y in u[0] if str(y).endswith(".drpm")), ""), "expected.rpm": exp, "out.rpm": x}
    out.add("calls")
    c = crashed(g, 1)
    if c:
        out.bad(c[0], what + "\n" + c[1], fb, u)
        return
    o = g["ops"][0]
    rc, kinds = o["rc"], {v[0] for v in ch.values()}
    if o["fd"] or o["leak"] or o.get("child"):
        out.bad("left behind: " + ("descriptor" if o["fd"] else "memory" if o["leak"] else "child"), "%s\n%r" % (what, o), fb, u)
    for q, there in o.get("wrote", []):
        if there and q.startswith("/tmp/drpm"):
            out.bad("left behind: temporary file" + (" after a fault" if faulted else ""), "%s\n%r" % (what, o), fb, u)
            try:
                os.unlink(q)
            except OSError:
                pass
    try:
        same = rc == 0 and open(x, "rb").read() == exp
    except OSError:
        same = False
    works = mode in ("ok", "slow", "late")
    if m is None:
        if not kinds or (kinds == {"image"} and works):
            if faulted and rc:
                out.add("refused_after_fault")
            elif rc:
                out.bad("refused with %d" % rc, what, fb, u)
            elif not same and not (faulted and dl.md5_kind == "none-and-unsigned"):
                out.bad("output differs", "%s, %s, fault at %s" % (what, dl.md5_kind, o.get("fsite")), fb, u)
            else:
                out.add("rebuilt_from_images" if kinds else "rebuilt")
        elif rc == 0 and not same and dl.md5_kind != "none-and-unsigned":
            out.bad("success with another output", what, fb, u)
        elif rc not in range(11):
            out.bad("undocumented code %d" % rc, what, fb, u)
        else:
            out.add("other_rebuilt" if same else "other_refused")
    else:
        v = [fate(st[f.name][0], mode, works, m) for f in need if f.name in st]
        want = NOTRUST if "fail" in v else NOTRUST | {OK} if "may" in v else {OK}
        if faulted:
            want = want | (set(range(1, 11)))
        if rc not in want:
            out.bad("mode %d answered %d, expected %s" % (m, rc, sorted(want)), what, fb, u)
        else:
            out.add("check_ok_with_images" if rc == 0 and kinds else "check_ok" if rc == 0 else "check_refused_%d" % rc)
    out.sig((u[0][0], m, mode, fl, rc, tuple(sorted(kinds)), len(need) > 8, dl.ext_len // 8192, env.get("DRPMV_IGNCHLD")))
    if kinds:
        out.sample(what)


def fate(kind, mode, works, m):
    """Whether a check succeeds as far as one file is concerned."""
    if kind == "image":
        return "ok" if works else "may" if m == SIZES and mode == "wrong" else "fail"
    if kind == "image of other content":
        return "may" if m == SIZES or mode == "wrong" else "fail"
    if kind == "image cut short":
        return "may" if m == SIZES else "fail"
    return "fail"


def main():
    c = Check("P20", "exploration", "distinct = (kind of call, mode, how prelink behaves, caches, result, kinds of altered files, amount of data)",
              ["prelink itself is a stand-in that undoes images made for it, or goes wrong in one of six ways"])
    c.build([("asan", B.fault_args("asan")), ("small", B.fault_args("asansmall")), ("memcheck", B.fault_args("memchecksmall"))])
    prelink.stand_in(c)
    n = 1500 if c.thorough() else 64
    c.map(unit, n)
    t = c.total.counts
    c.finish(t.get("calls", 0), {"rebuilt_from_images": n * 4, "check_ok_with_images": n * 3, "other_refused": n, "runs_of_prelink": n * 10})


if __name__ == "__main__":
    main()
