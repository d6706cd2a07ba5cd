"""P09: no memory error or undefined behaviour on hostile packages and patch lists."""
import copy, hashlib, os
import build as B
import deltafmt as D
import dgen
import fuzz
import gen as G
import hostile
import rpml
import rpmgen as R
from run import Check, crashed, memchecked, run_packed
from p01 import write


def patch_lists(r, rpm, parts):
    """(print list, patch list) of a package, mostly well formed."""
    ents, names = [], []
    for f in rpm.files:
        n = f.name[1:] if f.name[:1] == b"/" else f.name
        names.append(n)
        ents.append(rpml.Entry(n, f.mode if r.random() < 0.95 else 0, len(f.data), hashlib.md5(f.data).digest(), f.rdev))
    nm, evr = rpm.name, parts.nevr().encode("latin-1")[len(rpm.name) + 1:]
    pl = rpml.build(r, nm, evr, [], [e for e in ents if r.random() < 0.9])
    pr = rpml.build(r, nm, evr, [n for n in names if r.random() < 0.5], ents)
    return pr, pl


def unit(ctx, r, i, out):
    d = ctx.fresh()
    units, want = [], []
    x, sq = os.path.join(d, "x.out"), os.path.join(d, "x.seq")
    for k in range(3):
        p = G.pair(r, ctx.helper, maxlen=r.choice([300, 2000, 9000]), nfiles=r.choice([1, 2, 4, 8]), colors=r.random() < 0.2)
        a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
        write(a, p.oldb)
        write(b, p.newb)
        parts = R.RpmParts(p.oldb)
        dls = []
        for m in range(2):
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper)
            f = os.path.join(d, "%d.%d.drpm" % (k, m))
            write(f, ob)
            dls.append((dl, f))
        for q in range(10):
            lab, hb = hostile.package(r, p.old, p.oldb, ctx.helper)
            lab2, hn = hostile.package(r, p.new, p.newb, ctx.helper)
            f, g = os.path.join(d, "%d.%d.ho.rpm" % (k, q)), os.path.join(d, "%d.%d.hn.rpm" % (k, q))
            write(f, hb)
            write(g, hn)
            o1, _ = G.options(r, p.new.comp, rpmonly=False)
            o2, _ = G.options(r, p.new.comp, rpmonly=True)
            dl, df = r.choice(dls)
            sid = dl.src_nevr + "-" + dl.sequence.hex()
            try:                                   # a delta and a sequence that fit the hostile file list
                w = R.RpmParts(hb)
                fl = D.file_list(w)
                idx = [j for j in range(len(fl)) if r.random() < 0.7]
                s = D.full_sequence(fl, idx, D.digest_algo(w))
                y = copy.copy(dl)
                y.rpmonly and setattr(y, "sequence", (w.sig.get(R.SIG_MD5) or (0, 0, 0, s[:16]))[3][:16]) or setattr(y, "sequence", s)
                y.src_nevr = w.nevr()
                if y.rpmonly:
                    y.sequence = y.sequence[:16]
                fit = y.encode(ctx.helper)
                sid2 = w.nevr() + "-" + s.hex()
                if "\t" in sid2 or "\n" in sid2 or "\0" in sid2:
                    raise ValueError
                out.add("fitted_deltas")
            except Exception:
                fit, sid2 = None, None
            ops = [("make", f, b, x, o1 if q % 2 else o2), ("make", a, g, x, o2 if q % 2 else o1), ("seq", f, sid, 0), ("apply", f, df, x)]
            if q % 3 == 0:
                ops += [("make", f, "-", x, "init,comp=1:1,seqfile=" + sq), ("make", g, "-", x, "init,type=1")]
            if q % 3 == 1:
                ops += [("make", f, g, x, "init,comprpm,noaddblk")]
            if fit:
                h = os.path.join(d, "%d.%d.fit.drpm" % (k, q))
                write(h, fit)
                ops += [("apply", f, h, x), ("seq", f, sid2, 0)]
            units.append(ops)
            want.append((lab + " / " + lab2, {"old.rpm": hb, "new.rpm": hn, "delta.drpm": df, "fit.drpm": fit or b"", "good-old.rpm": p.oldb,
                                              "good-new.rpm": p.newb}))
        for q in range(4):
            pr, pl = patch_lists(r, p.old, parts)
            w = r.randrange(5)
            if w in (0, 2):
                pr = hostile.havoc(r, pr)
            if w in (1, 2):
                pl = hostile.havoc(r, pl)
            if w == 3:
                pr = hostile.package(r, p.old, p.oldb, ctx.helper)[1]
            f, g = os.path.join(d, "%d.%d.print" % (k, q)), os.path.join(d, "%d.%d.patch" % (k, q))
            write(f, pr)
            write(g, pl)
            units.append([("make", a, b if q % 2 else "-", x, "init,comp=1:1,patches=%s:%s" % (f, g))])
            want.append(("patch lists %d" % w, {"print": pr, "patch": pl, "old.rpm": p.oldb, "new.rpm": p.newb}))
    if i % 8 == 1:
        s = r.sample(range(len(units)), min(len(units), 14))
        memchecked(ctx, out, [units[j] for j in s], [want[j] for j in s])
    fl = "small" if i % 2 else "asan"
    for g, u, (what, files) in zip(run_packed(ctx.drv(fl), units, per=12), units, want):
        out.add("hostile_inputs")
        out.add("calls", len(u))
        c = crashed(g, len(u))
        if c and c[0].startswith("no answer"):
            out.add("no_answer_left_to_P13")
            continue
        if c:
            out.bad(c[0], what + "\n" + c[1], files, u)
            continue
        for o in g["ops"]:
            out.add("rc_%d" % o["rc"])
        out.sig((what, tuple(o["rc"] for o in g["ops"])))
        out.sample("%s -> %s" % (what, [o["rc"] for o in g["ops"]]))


def seeds(ctx, r, i, out):
    d, e = os.path.join(ctx.top, "fz"), os.path.join(ctx.top, "fp")
    p = G.pair(r, ctx.helper, maxlen=1500, nfiles=r.choice([1, 2, 4]), comps=["none"], name=b"pkg", digest=r.choice(["md5", "sha256"]))
    for s in ("olds", "seeds", "deltas"):
        os.makedirs(os.path.join(d, s), exist_ok=True)
        os.makedirs(os.path.join(e, s), exist_ok=True)
    write(d + "/olds/%d.rpm" % i, p.oldb)
    write(e + "/olds/%d.rpm" % i, p.oldb)
    dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=i % 2 == 0, tgt_comps=["none", "gzip"])
    write(d + "/deltas/%d.drpm" % i, ob)
    for m in range(3):
        o = copy.deepcopy(p.old)
        o.comp = r.choice(["none", "none", "gzip", "xz", "zstd", "lzma", "bzip2"])
        o.level = 1
        write(d + "/seeds/%d.%d" % (i, m), bytes([r.randrange(256)]) + o.build(ctx.helper))
        pr, pl = patch_lists(r, p.old, R.RpmParts(p.oldb))
        b = bytes([len(pl) & 255, len(pl) >> 8])
        # the first byte also selects the old package
        for pad in range(6):
            if (b[0] % 6) == i:
                break
            b = bytes([(b[0] + 1) & 255, b[1]])
        write(e + "/seeds/%d.%d" % (i, m), b + pl + b"\0" * (b[0] + 256 * b[1] - len(pl) if b[0] + 256 * b[1] > len(pl) else 0) + pr)


def main():
    c = Check("P09", "exploration", "distinct = (mutation, results of the calls)",
              ["clang's address and undefined-behaviour sanitizers see every error in the library's own code"])
    small = B.fault_args("asansmall")
    c.build(["asan", ("small", small), ("memcheck", B.fault_args("memcheck")), ("fuzz", dict(flavour="fuzz", harness=("fuzz.c",), exe="fuzzer"))])
    n = 3000 if c.thorough() else 110
    c.map(unit, n)
    c.map(seeds, 6, workers=1)
    fuzz.stage(c, "rpm", runs=150000 if c.thorough() else 1500)
    fuzz.stage(c, "patches", runs=300000 if c.thorough() else 1500, d=os.path.join(c.top, "fp"))
    t = c.total.counts
    c.finish(t.get("calls", 0) + t.get("guided_executions", 0), {"hostile_inputs": n * 40, "rc_0": n * 10, "rc_4": n * 20, "calls_under_memcheck": n * 5})
