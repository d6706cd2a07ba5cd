"""P01: make then apply reproduces the new package byte for byte."""
import os, random
import gen as G
import run
from run import Check, crashed, run_packed


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)


def unit(ctx, r, i, out):
    d = ctx.fresh()
    groups, meta = [], []
    for k in range(8):
        big = r.random() < (0.12 if ctx.tier == "quick" else 0.3)
        ident = r.random() < 0.12
        if k == 0 and i % 22 == 3:
            p = G.many(r, ctx.helper, 33500 if ctx.tier != "quick" and i % 130 == 3 else 4700)
            out.add("pairs_of_thousands_of_files")
        else:
            p = G.pair(r, ctx.helper, maxlen=r.choice([60000, 200000]) if big else r.choice([300, 3000, 12000]))
        spec, o = G.options(r, p.new.comp)
        if o["version"] == 1 and not ident:
            p.new.level = G.D.DEFLEVEL[p.new.comp]
            p.newb = p.new.build(ctx.helper)
        if ident:
            G.identity(p, ctx.helper)
            if o["version"] == 1:
                p.old.level = G.D.DEFLEVEL[p.old.comp]
                p.oldb = p.newb = p.old.build(ctx.helper)
        a, b, dl, nw = (os.path.join(d, "%d.%s" % (k, x)) for x in ("old.rpm", "new.rpm", "drpm", "out.rpm"))
        write(a, p.oldb)
        write(b, p.newb)
        fst, snd = (a, "-" if r.random() < 0.5 else a) if ident else (a, b)
        if ident and snd == "-" and r.random() < 0.5:
            fst, snd = "-", a
        if ident and snd == a and fst == a:
            pass
        groups.append([("make", fst, snd, dl, spec), ("apply", a, dl, nw)])
        meta.append((p, spec, o, ident, a, b, dl, nw))
    res = run_packed(ctx.drv(), groups)
    for g, grp, (p, spec, o, ident, a, b, dl, nw) in zip(res, groups, meta):
        out.add("roundtrips")
        what = "%s old=%s.%d new=%s.%d files=%d opts=%s%s" % (
            "source" if p.old.source else "binary", p.old.comp, p.old.level, p.new.comp, p.new.level, len(p.new.files),
            spec, " identity" if ident else "")
        fl = {"old.rpm": p.oldb, "new.rpm": p.newb, "delta.drpm": dl, "out.rpm": nw}
        c = crashed(g, 2)
        if c:
            out.bad("crash: " + c[0], what + "\n" + c[1], fl, grp)
            continue
        if any(x != 0 for x in g["ops"][0].get("opts", [])):
            out.bad("valid options refused", "%s: %s" % (what, g["ops"][0]["opts"]), fl, grp)
            continue
        rm, ra = g["ops"][0]["rc"], g["ops"][1]["rc"]
        if rm != 0:
            out.bad("make failed with %d" % rm, what, fl, grp)
        elif ra != 0:
            out.bad("apply failed with %d" % ra, what, fl, grp)
        elif open(nw, "rb").read() != p.newb:
            out.bad("output differs", what, fl, grp)
        else:
            out.add("identical")
            out.add("type_rpmonly" if o["rpmonly"] else "type_standard_v%d" % o["version"])
            out.add("payload_" + p.new.comp)
            out.add("identity" if ident else "two_packages")
            out.add("bytes_reproduced", len(p.newb))
            out.sig("%s|%s|%s|%s|%d" % (p.old.comp, p.new.comp, spec, ident, len(p.newb)))
            out.sample(what)


def main():
    c = Check("P01", "exploration", "distinct = (old and new payload compression, option calls, identity, output size) of a "
              "round trip whose output was compared byte for byte with the new package",
              ["packages are those of the independent generator; payloads compressed by librpmio as rpmbuild does"])
    c.build(["asan"])
    n = 4000 if c.thorough() else 260
    c.map(unit, n)
    c.finish(c.total.counts.get("roundtrips", 0), {"roundtrips": n * 8, "type_rpmonly": 20, "type_standard_v1": 5,
                                                   "type_standard_v2": 5, "identity": 10})
