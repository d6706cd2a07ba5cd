"""P15: options mean what they say (model of the options objects, run against random histories of option calls)."""
import copy, os
import deltafmt as D
import gen as G
import rpmgen as R
import work
from run import Check, crashed
from p01 import write

OK, ARGS = 0, 2
NAME = {0: "none", 1: "gzip", 2: "bzip2", 3: "lzma", 4: "xz", 5: "lzip", 6: "zstd"}
DEFLEVEL = {"gzip": 9, "bzip2": 9, "lzma": 2, "xz": 3, "zstd": 19}


class Opts:
    """What an options object means."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.rpmonly, self.version, self.comp, self.add, self.seqfile, self.patches = False, 3, None, (2, 0), None, None

    def key(self):
        return (self.rpmonly, self.version, self.comp, self.add, self.seqfile is not None, self.patches)


def accepts(kind, a, b=0):
    if kind == "type":
        return a in (0, 1)
    if kind == "version":
        return 1 <= a <= 3
    return 0 <= a <= 6 and 0 <= b <= 9


def canonical(o, seqfile):
    """One direct way of asking for the same."""
    s = ["0.init", "0.type=%d" % o.rpmonly, "0.version=%d" % o.version]
    if o.comp:
        s.append("0.comp=%d:%d" % o.comp)
    s.append("0.addblk=%d:%d" % o.add if o.add else "0.noaddblk")
    if o.seqfile:
        s.append("0.seqfile=" + seqfile)
    if o.patches:
        s.append("0.patches=%s:%s" % o.patches)
    return s


LEVELS = [0, 1, 2, 3, 5, 9]
BAD_LEVELS = [10, 11, 99, 100, 255, 256, 65535]
BAD_COMPS = [7, 8, 9, 100, 255, 256, 257, 65535]


class Prog:
    """A random history of calls on four options objects with what each must return and, for makes, the meaning it must have."""

    def __init__(self, r, d, tag, old, new, lists, steps, ident):
        self.r, self.steps, self.exp, self.makes = r, [], [], []
        o = [None] * 4
        nm = 0

        def do(s, e):
            self.steps.append(s)
            self.exp.append(e)
        for _ in range(steps):
            n = r.randrange(4)
            if o[n] is None:
                k = r.random()
                if k < 0.75:
                    do("%d.init" % n, OK)
                    o[n] = Opts()
                elif k < 0.8:
                    do("%d.destroy" % n, ARGS)
                else:
                    do("%d.%s" % (n, r.choice(["type=1", "version=2", "comp=1:1", "addblk=1:1", "noaddblk", "comprpm", "defaults", "seqfile=x",
                                               "copy:%d" % ((n + 1) % 4), "selfcopy", "patches=a:b"])), ARGS)
                continue
            x, k = o[n], r.randrange(22)
            if k == 0:
                do("%d.destroy" % n, OK)
                o[n] = None
            elif k == 1:
                do("%d.defaults" % n, OK)
                x.reset()
            elif k in (2, 3):
                v = r.choice([0, 1, 1, 2, 3, 255, 65535])
                do("%d.type=%d" % (n, v), OK if accepts("type", v) else ARGS)
                if accepts("type", v):
                    x.rpmonly = v == 1
            elif k in (4, 5):
                v = r.choice([1, 2, 3, 3, 3, 0, 4, 255, 257, 65535])
                do("%d.version=%d" % (n, v), OK if accepts("version", v) else ARGS)
                if accepts("version", v):
                    x.version = v
            elif k in (6, 7, 8, 9):
                c, l = r.randrange(7), r.choice(LEVELS)
                if r.random() < 0.3:
                    if r.random() < 0.5:
                        c = r.choice(BAD_COMPS)
                    else:
                        l = r.choice(BAD_LEVELS)
                a = r.choice(["comp", "addblk"])
                do("%d.%s=%d:%d" % (n, a, c, l), OK if accepts(a, c, l) else ARGS)
                if accepts(a, c, l):
                    if a == "comp":
                        x.comp = (c, l)
                    else:
                        x.add = (c, l)
            elif k == 10:
                do("%d.comprpm" % n, OK)
                x.comp = None
            elif k == 11:
                do("%d.noaddblk" % n, OK)
                x.add = None
            elif k in (12, 13):
                if r.random() < 0.25:
                    do("%d.seqfile" % n, OK)
                    x.seqfile = None
                else:
                    f = os.path.join(d, "%s.%s" % (tag, "s" * r.choice([1, 2, 7, 30, 120])))
                    do("%d.seqfile=%s" % (n, f), OK)
                    x.seqfile = f
            elif k == 14 and lists:
                a = r.choice(lists)
                if r.random() < 0.25:
                    do("%d.patches=%s:%s" % (n, *r.choice([("", a[1]), (a[0], ""), ("", "")])), ARGS)
                else:
                    do("%d.patches=%s:%s" % (n, a[0], a[1]), OK)
                    x.patches = a
            elif k in (15, 16):
                m = r.choice([i for i in range(4)])
                if o[m] is None:
                    do("%d.copy:%s" % (n, r.choice([str(m), "-"])), ARGS)
                else:
                    do("%d.copy:%d" % (n, m), OK)
                    if m != n:
                        o[n] = copy.copy(o[m])
            elif k == 17:
                do("%d.selfcopy" % n, OK)
            elif k >= 18:
                f = os.path.join(d, "%s.%d.drpm" % (tag, nm))
                nm += 1
                null = r.random() < 0.08
                y = Opts() if null else copy.copy(x)
                bad = y.rpmonly and y.version < 3
                do("%s.make:%s:%s:%s" % ("-" if null else n, old, "-" if ident else new, f), ARGS if bad else OK)
                self.makes.append((len(self.steps) - 1, f, y, bad))


def level_of(r, helper, z):
    """Decompressed bytes of a compressed stream."""
    return R.decompress(helper, z)


def same_level(helper, comp, level, z):
    """True when z is what compressing its contents at that level gives (None: cannot tell)."""
    if comp in ("none", "lzip"):
        return None
    raw = R.decompress(helper, z)[1]
    return R.compress(helper, comp, level, raw) == z


def audit(helper, y, p, b, ident, out):
    """Yields what is wrong with the delta b made with options meaning y."""
    try:
        d = D.Delta.decode(b, helper)
    except D.FormatError as e:
        yield "not decodable", str(e)
        return
    if d.rpmonly != y.rpmonly:
        yield "type", "rpm-only %s, asked for %s" % (d.rpmonly, y.rpmonly)
        return
    if d.version != y.version:
        yield "version", "%d, asked for %d" % (d.version, y.version)
    nod = ident and y.rpmonly
    new = R.RpmParts(p.newb)
    if y.comp is None:
        comp, level = ("gzip", 9) if nod else (new.comp() or "none", int(new.level() or 0))
    else:
        comp, level = NAME[y.comp[0]], y.comp[1] or DEFLEVEL.get(NAME[y.comp[0]], 0)
    if d.comp != comp:
        yield "delta compression", "%s, asked for %s" % (d.comp, comp)
    else:
        zo = len(d.front()) if d.rpmonly else R.RpmParts(b).hdr_end
        s = same_level(helper, comp, level, b[zo:])
        if s is not None:
            out.add("delta_levels_compared")
            if not s:
                yield "delta compression level", "not what %s at level %d gives" % (comp, level)
    if y.add is None:
        if d.add_data:
            yield "add block although forbidden", "%d bytes" % len(d.add_data)
        out.add("no_add_block")
    elif d.add_data:
        want = NAME[y.add[0]]
        al = R.decompress(helper, d.add_data)[0]
        if want == "none":
            al = "none" if al != "none" and d.add_data[:1] not in b"\x1fBL(\xfd]" else al
        if al != want and want != "none":
            yield "add block compression", "%s, asked for %s" % (al, want)
        elif want != "none":
            s = same_level(helper, want, y.add[1] or DEFLEVEL.get(want, 0), d.add_data)
            if s is not None:
                out.add("add_block_levels_compared")
                if not s:
                    yield "add block level", "not what %s at level %d gives" % (want, y.add[1])
        out.add("add_block_" + want)


def unit(ctx, r, i, out):
    d = ctx.fresh()
    p = None
    for _ in range(20):
        p = G.pair(r, ctx.helper, maxlen=r.choice([2000, 6000]), nfiles=r.choice([2, 4, 6]), source=False)
        if i % 3 or R.RpmParts(p.newb).comp() not in (None, "none"):
            break
    ident = r.random() < 0.12
    if ident:
        G.identity(p, ctx.helper)
    a, b = os.path.join(d, "o.rpm"), os.path.join(d, "n.rpm")
    write(a, p.oldb)
    write(b, p.newb)
    lists = []
    for k in range(2):
        pr, pl = work.patch_lists(r, p.old, R.RpmParts(p.oldb))
        f, g = os.path.join(d, "%d.print" % k), os.path.join(d, "%d.patch" % k)
        write(f, pr)
        write(g, pl)
        lists.append((f, g))
    inp = {"old.rpm": p.oldb, "new.rpm": p.newb}
    progs = [Prog(r, d, "p%d" % k, a, b, lists, r.choice([15, 40, 90]), ident) for k in range(8)]
    # what the same meaning gives when asked for directly
    want, cs = {}, []
    for pg in progs:
        for _, f, y, bad in pg.makes:
            if not bad and y.key() not in want:
                n = len(want)
                want[y.key()] = (os.path.join(d, "c%d.drpm" % n), os.path.join(d, "c%d.seq" % n) if y.seqfile else None, y)
                cs.append([("optprog", ";".join(canonical(y, os.path.join(d, "c%d.seq" % n)) + ["0.make:%s:%s:%s" % (a, "-" if ident else b, want[y.key()][0])]))])
    drv = ctx.drv("asan")
    for g, u, (f, s, y) in zip(drv.run(cs), cs, list(want.values())):
        c = crashed(g, 1)
        if c or any(g["ops"][0]["rcs"]):
            out.bad("direct request failed" if not c else c[0], "%s %s" % (u, c or g["ops"][0]["rcs"]), inp, u)
            continue
        out.add("direct_requests")
        for k, t in audit(ctx.helper, y, p, open(f, "rb").read(), ident, out):
            out.bad("option not honoured: " + k, "%s\n%s" % (t, u), inp, u)
    # the histories; each make's outputs are looked at afterwards, so sequence files are made unique per history and overwritten
    for pg in progs:
        seqs = {}
        ops = [("optprog", ";".join(pg.steps))]
        g = drv.run([ops])[0]
        c = crashed(g, 1)
        if c:
            out.bad(c[0], c[1], inp, ops)
            continue
        rcs = g["ops"][0]["rcs"]
        out.add("option_calls", len(rcs))
        if g["ops"][0].get("leak") or g["ops"][0].get("fd"):
            out.bad("left behind", repr(g["ops"][0]), inp, ops)
        for k, (s, e, v) in enumerate(zip(pg.steps, pg.exp, rcs)):
            out.add("refused" if e else "accepted")
            if v != e:
                out.bad("returned %d instead of %d: %s" % (v, e, s.split(".", 1)[1].split("=")[0].split(":")[0]),
                        "step %d %s after %s" % (k, s, pg.steps[max(0, k - 12):k]), inp, ops)
        for k, f, y, bad in pg.makes:
            if bad:
                out.add("refused_combinations")
                if os.path.exists(f):
                    out.bad("output created although refused", pg.steps[k], inp, ops)
                continue
            out.add("makes_compared")
            out.sig((ident,) + y.key()[:5] + (y.patches is not None,))
            got = work.read(f)
            ref = work.read(want[y.key()][0])
            if got is None or got != ref:
                out.bad("options mean something else than asked for", "step %d %s: the delta differs from the one made by %s\nhistory %s" % (
                    k, pg.steps[k], canonical(y, "s"), pg.steps[:k]), inp, ops)
            if y.seqfile:
                seqs[y.seqfile] = want[y.key()][1]
        for n in os.listdir(d):
            f = os.path.join(d, n)
            if ".s" in n and n.startswith(pg.steps and os.path.basename(pg.makes[0][1]).split(".")[0] + "." if pg.makes else "\0"):
                if n.endswith(".drpm"):
                    continue
                if f not in seqs:
                    out.bad("sequence file nobody asked for", "%s" % n, inp, ops)
        for f, ref in seqs.items():
            out.add("sequence_files_compared")
            if work.read(f) is None or work.read(f) != work.read(ref):
                out.bad("sequence file missing or wrong", os.path.basename(f), inp, ops)
    out.sample("%d histories, %d distinct meanings" % (len(progs), len(want)))


def table(ctx, r, i, out):
    """Every value of every setter's arguments, and that refused values change nothing."""
    d = ctx.fresh()
    p = G.pair(r, ctx.helper, maxlen=600, nfiles=2, source=False)
    a, b = os.path.join(d, "o.rpm"), os.path.join(d, "n.rpm")
    write(a, p.oldb)
    write(b, p.newb)
    pre = [[], ["0.type=1", "0.comp=6:2", "0.addblk=4:1"], ["0.version=2", "0.comp=2:5", "0.noaddblk"], ["0.version=1", "0.comprpm", "0.addblk=0:0"]][i // 6 % 4]
    kind = ["type", "version", "comp", "comp-level", "addblk", "addblk-level"][i % 6]
    good, bad = [], []
    for v in range(65536):
        if kind in ("type", "version"):
            s, okv = "0.%s=%d" % (kind, v), accepts(kind, v)
        elif kind.endswith("level"):
            s, okv = "0.%s=%d:%d" % (kind[:-6], (v + i) % 7, v), accepts("comp", 1, v)
        else:
            s, okv = "0.%s=%d:%d" % (kind, v, (v + i) % 10), accepts("comp", v, 1)
        (good if okv else bad).append(s)
    f, g = os.path.join(d, "x.drpm"), os.path.join(d, "y.drpm")
    base = ["0.init"] + pre
    fin = ["0.make:%s:%s:%s" % (a, b, f)]
    ops = [("optprog", ";".join(base + bad + fin)), ("optprog", ";".join(base + ["0.make:%s:%s:%s" % (a, b, g)])),
           ("optprog", ";".join(["0.init"] + good))]
    res = ctx.drv("asan", cpu=60).run([ops])[0]
    c = crashed(res, 3)
    inp = {"old.rpm": p.oldb, "new.rpm": p.newb}
    if c:
        out.bad(c[0], c[1], inp, [])
        return
    rc = res["ops"][0]["rcs"]
    n0, n1 = len(base), len(base) + len(bad)
    for s, v in zip(bad, rc[n0:n1]):
        if v != ARGS:
            out.bad("value outside the documented ones accepted: " + kind, "%s returned %d" % (s, v), inp, base + [s])
            break
    for s, v in zip(good, res["ops"][2]["rcs"][1:]):
        if v != OK:
            out.bad("documented value refused: " + kind, "%s returned %d" % (s, v), inp, [s])
            break
    out.add("values_tried", len(bad) + len(good))
    if rc[n1] != 0 or work.read(f) is None or work.read(f) != work.read(g):
        out.bad("refused values changed the options: " + kind, "after refused values of %s on %s" % (kind, pre), inp, base)
    out.sig(("values", kind, i // 6))


def equal(ctx, r, i, out):
    """No options, fresh options, reset options, and copies of them onto used objects: all the same delta."""
    d = ctx.fresh()
    p = G.pair(r, ctx.helper, maxlen=4000, nfiles=r.choice([1, 3, 6]))
    a, b = os.path.join(d, "o.rpm"), os.path.join(d, "n.rpm")
    write(a, p.oldb)
    write(b, p.newb)
    ident = r.random() < 0.15
    used = ["type=1", "version=2", "comp=6:3", "noaddblk", "seqfile=" + os.path.join(d, "no", "dir"), "patches=/nonexistent/a:/nonexistent/b", "addblk=4:2"]
    r.shuffle(used)
    used = used[:r.randrange(1, 8)]
    fs = [os.path.join(d, "%d.drpm" % k) for k in range(6)]
    mk = lambda n, k: "%s.make:%s:%s:%s" % (n, a, "-" if ident else b, fs[k])
    prog = [mk("-", 0), "0.init", mk("0", 1)] + ["0." + u for u in used] + ["0.defaults", mk("0", 2), "1.init"] + ["1." + u for u in used] + \
        ["2.init", "1.copy:2", "2.destroy", mk("1", 3), "1.copy:0", "0.type=1", "0.comp=0:0", mk("1", 4), "1.selfcopy", mk("1", 5)]
    g = ctx.drv("asan").run([[("optprog", ";".join(prog))]])[0]
    c = crashed(g, 1)
    inp = {"old.rpm": p.oldb, "new.rpm": p.newb}
    if c:
        out.bad(c[0], c[1], inp, prog)
        return
    bad = [(s, v) for s, v in zip(prog, g["ops"][0]["rcs"]) if v]
    if bad:
        out.bad("default options refused", repr(bad), inp, prog)
        return
    bs = [work.read(f) for f in fs]
    for k in range(1, 6):
        out.add("defaults_compared")
        if bs[k] != bs[0] or bs[k] is None:
            out.bad("%s differ from no options" % ["", "fresh options", "reset options", "a copy of fresh options onto a used object",
                    "a copy of reset options whose source was changed", "a self-copy"][k], "after %s" % used, inp, prog)
    out.sig(("equal", tuple(used)))


def both(ctx, r, i, out):
    if i < 24:
        table(ctx, r, i, out)
    elif i % 3 == 0:
        equal(ctx, r, i, out)
    else:
        unit(ctx, r, i, out)


def main():
    c = Check("P15", "exploration", "distinct = meanings of the options objects deltas were made with, setter value tables and sets of replaced settings",
              ["the level a stream was compressed at is recognised by compressing its contents again with the same libraries"])
    c.build(["asan"])
    n = 3000 if c.thorough() else 130
    c.map(both, n)
    t = c.total.counts
    c.finish(t.get("option_calls", 0) + t.get("values_tried", 0), {"makes_compared": n * 2, "refused": n * 10, "defaults_compared": n,
             "values_tried": 1500000, "delta_levels_compared": n, "add_block_levels_compared": n // 4, "sequence_files_compared": n // 4})


if __name__ == "__main__":
    main()
