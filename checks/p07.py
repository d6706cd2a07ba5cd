"""P07: applying implements the delta format for every well-formed delta (independent interpreter as oracle)."""
import os
import build as B
import deltafmt as D
import dgen
import gen as G
import rpmgen as R
from run import Check, crashed, run_packed
from p01 import write


def unit(ctx, r, i, out):
    d = ctx.fresh()
    groups, meta = [], []
    for k in range(6):
        big = r.random() < 0.5
        if k == 0 and i % 16 == 4:
            big = "huge"
        p = G.pair(r, ctx.helper, maxlen=r.choice([800000, 1600000]) if big == "huge" else r.choice([30000, 90000]) if big else r.choice([300, 3000, 12000]),
                   nfiles=r.choice([3, 6, 12]) if big else None)
        a = os.path.join(d, "%d.old.rpm" % k)
        write(a, p.oldb)
        for m in range(4):
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, big, nodiff=r.random() < 0.05)
            f, nw = os.path.join(d, "%d.%d.drpm" % (k, m)), os.path.join(d, "%d.%d.out" % (k, m))
            write(f, ob)
            groups.append([("apply", a, f, nw)])
            meta.append((p, dl, ob, exp, a, f, nw))
    for fl in ("small4" if i % 3 == 1 else "small", "asan"):
        res = run_packed(ctx.drv(fl), groups)
        for g, grp, (p, dl, ob, exp, a, f, nw) in zip(res, groups, meta):
            out.add("applications")
            what = "%s v%d delta=%s tgt=%s.%d ext=%d copies=%d/%d add=%d md5=%s (%s caches)" % (
                "rpm-only" if dl.rpmonly else "standard", dl.version, dl.comp, dl.tgt_comp, dl.tgt_level, dl.ext_len,
                len(dl.ext_copies), len(dl.int_copies), len(dl.add_data), dl.md5_kind, fl if fl != "asan" else "normal")
            files = {"old.rpm": p.oldb, "delta.drpm": ob, "expected.rpm": exp, "out.rpm": nw}
            c = crashed(g, 1)
            if c:
                out.bad("crash: " + c[0], what + "\n" + c[1], files, grp)
                continue
            o = g["ops"][0]
            if o["rc"] != 0:
                out.bad("well-formed delta refused with %d" % o["rc"], what, files, grp)
                continue
            if open(nw, "rb").read() != exp:
                out.bad("output differs from the interpreter", what, files, grp)
                continue
            os.unlink(nw)
            out.add("outputs_equal")
            out.add("blocks_paged_out", o.get("pw", 0))
            out.add("blocks_paged_in", o.get("pr", 0))
            out.add("ext_copies", len(dl.ext_copies))
            out.add("with_add_block", 1 if dl.add_data else 0)
            out.add("md5_" + dl.md5_kind)
            out.add("rpmonly" if dl.rpmonly else "standard")
            out.sig((fl, dl.rpmonly, dl.version, dl.comp, dl.tgt_comp, dl.ext_len, len(dl.ext_copies), len(dl.int_copies)))
            out.sample(what)


def main():
    c = Check("P07", "exploration", "distinct = (cache size, type, version, compressions, external length, number of copies) of an "
              "applied delta whose output equalled the interpreter's",
              ["the interpreter (lib/deltafmt.py, lib/dgen.py) is the format", "sequences name files in archive order"])
    small = B.fault_args("asansmall")
    c.build(["asan", ("small", small), ("small4", B.fault_args("asansmall4"))])
    n = 2000 if c.thorough() else 150
    c.map(unit, n)
    c.finish(c.total.counts.get("applications", 0), {"outputs_equal": n * 24, "blocks_paged_out": 200, "blocks_paged_in": 50,
                                                     "with_add_block": 100, "md5_full": 100, "rpmonly": 100})
