"""P14: malformed inputs are rejected by every operation that reads them."""
import os
import deltafmt as D
import dgen
import fslib
import gen as G
import malform
import rpmgen as R
from run import Check, crashed, run_packed
from p01 import write


def bad_ids(r, nevr, seq):
    h = seq.hex()
    i = r.randrange(32)
    return [("empty", ""), ("dash only", "-"), ("no dash", h), ("no digits", nevr + "-"), ("name only", nevr),
            ("short", nevr + "-" + h[:r.randrange(1, 32)]), ("not hexadecimal", nevr + "-" + h[:i] + r.choice("gzG_ ./:") + h[i + 1:]),
            ("leading dash only", "-" + h[:10])]


def unit(ctx, r, i, out):
    d = ctx.fresh()
    db = fslib.Db(d)
    heads, units, want = [], [], []
    res = os.path.join(d, "x.out")

    def add(op, must, what, files):
        units.append([op])
        want.append((must, what, files))
    for k in range(3):
        p = fslib.pair(ctx, r, os.path.join(d, "r%d" % k), b"pkg%d" % k, source=False, maxlen=r.choice([300, 3000]),
                       nfiles=r.choice([1, 3, 6]))
        a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
        write(a, p.oldb)
        write(b, p.newb)
        heads.append(R.RpmParts(p.oldb).header)
        # malformed deltas
        for m in range(4):
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper)
            f = os.path.join(d, "%d.%d.drpm" % (k, m))
            write(f, ob)
            add(("read", f), False, "control", {"delta.drpm": ob})
            add(("apply", a, f, res), False, "control", {"delta.drpm": ob, "old.rpm": p.oldb})
            o = ",type=%d" % r.randrange(2)
            add(("make", f, b, os.path.join(d, "x.drpm"), "init,comp=1:1"), True, "delta as old package/make/", {"delta.drpm": ob})
            add(("make", a, f, os.path.join(d, "x.drpm"), "init,comp=1:1" + o), True, "delta as new package/make/", {"delta.drpm": ob})
            add(("make", f, "-", os.path.join(d, "x.drpm"), "init,comp=1:1"), True, "delta as only package/make/", {"delta.drpm": ob})
            add(("apply", f, f, res), True, "delta as old package/apply/", {"delta.drpm": ob})
            for q in range(6):
                mu = malform.delta_mutant(r, dl, ob, ctx.helper)
                if mu is None:
                    continue
                g = os.path.join(d, "%d.%d.%d.bad" % (k, m, q))
                write(g, mu[1])
                w = "%s delta, %s" % ("rpm-only" if dl.rpmonly else "standard", mu[0])
                fl = {"bad.drpm": mu[1], "old.rpm": p.oldb}
                if mu[2]:
                    add(("read", g), True, "delta/read/" + w, fl)
                    add(("check", g, r.choice([1, 2])), True, "delta/check/" + w, fl)
                add(("apply", a, g, res), True, "delta/apply/" + w, fl)
                if not dl.rpmonly:
                    add(("apply", "-", g, res), True, "delta/apply from files/" + w, fl)
        # malformed packages
        for q in range(6):
            for which in (0, 1):
                mu = malform.rpm_mutant(r, (p.old, p.new)[which], (p.oldb, p.newb)[which], ctx.helper)
                if mu is None:
                    continue
                g = os.path.join(d, "%d.%d.%d.bad.rpm" % (k, q, which))
                write(g, mu[1])
                if mu[0].startswith("signature digest") and which == 0:
                    dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=True)
                    f = os.path.join(d, "%d.%d.sd.drpm" % (k, q))
                    write(f, ob)
                    add(("apply", g, f, res), True, "old package/apply rpm-only/" + mu[0], {"old.rpm": g, "delta.drpm": ob})
                for ro in (0, 1):
                    if mu[2][2 * which + ro]:
                        pr = (g, b) if which == 0 else (a, g)
                        add(("make", pr[0], pr[1], os.path.join(d, "x.drpm"), "init,comp=1:1,type=%d" % ro), True,
                            "%s package/make %s/%s" % ("old new".split()[which], ("standard", "rpm-only")[ro], mu[0]),
                            {"old.rpm": pr[0], "new.rpm": pr[1]})
                if mu[2][0] and which == 0:
                    cut = mu[1][:3000000]
                    try:
                        hdr_ok = R.RpmParts(cut) is not None
                    except Exception:
                        hdr_ok = False
                    if not hdr_ok:
                        add(("seq", g, dl.src_nevr + "-" + "0" * 32, 0), True, "old package/check sequence/" + mu[0], {"old.rpm": g})
                    elif mu[2][1]:
                        dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=True)
                        f = os.path.join(d, "%d.%d.ro.drpm" % (k, q))
                        write(f, ob)
                        if dl.ext_len > 0 and sum(b for _, b in dl.ext_copies):
                            add(("apply", g, f, res), True, "old package/apply rpm-only/" + mu[0], {"old.rpm": g, "delta.drpm": ob})
                    dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=False, subset=False)
                    f = os.path.join(d, "%d.%d.st.drpm" % (k, q))
                    write(f, ob)
                    if len(D.seq_decode(dl.sequence)) >= 1:
                        pass
                    add(("apply", g, f, res), None, "old package/apply standard/" + mu[0], {"old.rpm": g, "delta.drpm": ob, "expected.rpm": exp})
        add(("make", a, b, os.path.join(d, "x.drpm"), "init"), False, "control", {})
        # malformed sequence IDs and missing files
        seq = D.full_sequence([], [], "md5")
        for how, s in bad_ids(r, D.file_list and R.RpmParts(p.oldb).nevr(), r.randbytes(16)):
            add(("seq", "-", s, r.choice([0, 1, 2])), True, "sequence/database/" + how, {})
            add(("seq", a, s, 0), True, "sequence/package/" + how, {"old.rpm": p.oldb})
        no, di = os.path.join(d, "no", "file"), d
        for x, how in ((no, "missing"), (di, "directory"), (d + "/%d.old.rpm/x" % k, "below a file"), ("", "empty name")):
            for op in (("read", x), ("apply", a, x, res), ("apply", x, f, res), ("check", x, 1), ("make", x, b, res, "init"),
                       ("make", a, x, res, "init"), ("seq", x, "a-1-1-" + "0" * 32, 0), ("make", x, "-", res, "init"),
                       ("make", a, b, os.path.join(x, "out"), "init"), ("apply", a, f, os.path.join(x, "out") if how != "directory" else x)):
                if "out" in op or how == "directory" and op[0] == "make" and op[3] != res:
                    continue
                add(op, True, "%s/%s/%s" % (how, op[0], op[1:].index(x) if x in op[1:] else "output"), {})
    db.add(heads)
    out.add("controls_total", sum(1 for x in want if x[0] is False))
    for g, u, (must, what, files) in zip(run_packed(ctx.drv(env=db.env), units, per=16), units, want):
        c = crashed(g, 1)
        if c:
            out.bad("crash: " + c[0], what + "\n" + c[1], files, u)
            continue
        o = g["ops"][0]
        if must is False:
            if o["rc"] == 0:
                out.add("controls_accepted")
            else:
                out.bad("intact input refused: " + u[0][0], "code %d" % o["rc"], files, u)
            continue
        if must is None:
            out.add("unspecified")
            continue
        out.add("malformed_inputs")
        short = "/".join(what.split("/")[:2])
        if o["rc"] == 0:
            out.bad("accepted: " + short, what, files, u)
        elif o["rc"] not in range(1, 11):
            out.bad("undocumented code %d: %s" % (o["rc"], short), what, files, u)
        elif u[0][0] == "read" and not o.get("ptr_null"):
            out.bad("object returned with an error", what, files, u)
        else:
            out.add("rejected")
            out.add("class " + short)
            out.sig((what.rstrip("0123456789 ofatx="), o["rc"]))
            out.sample("%s -> %d" % (what, o["rc"]))


def main():
    c = Check("P14", "exploration", "distinct = (operation, kind of malformation, error code)",
              ["each malformation is derived from a valid input by an edit that makes it invalid by the format's own rules",
               "damage to a compressed stream counts only when an independent decompressor refuses the stream"])
    c.build(["asan"])
    n = 1200 if c.thorough() else 60
    c.map(unit, n)
    t = c.total.counts
    c.finish(t.get("malformed_inputs", 0), {"malformed_inputs": n * 200})


if __name__ == "__main__":
    main()
