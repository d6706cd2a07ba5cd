"""P19: the contract on arguments and error codes, over the full product of argument classes."""
import itertools, os
import build as B
import deltafmt as D
import dgen
import gen as G
import hostile
import rpmgen as R
import work
from run import Check, crashed, run_packed
from p01 import write

OK, ARGS, NOINSTALL = 0, 2, 10
CODES = set(range(11))
MODES = [-2147483648, -65536, -2, -1, 0, 1, 2, 3, 4, 99, 255, 256, 257, 258, 65536, 65537, 65538, 2147483647]


def contract(ctx, r, i, out):
    d = ctx.fresh()
    p = G.pair(r, ctx.helper, maxlen=600)
    dl, ob, exp = dgen.make_delta(r, p, ctx.helper)
    f = os.path.join(d, "x.drpm")
    write(f, ob)
    g = ctx.drv("asan").run([[("contract", f)]])[0]
    c = crashed(g, 1)
    if c:
        out.bad(c[0], c[1], {"delta.drpm": ob}, [("contract", f)])
        return
    o = g["ops"][0]
    for n, rc in o["calls"]:
        out.add("contract_calls")
        want = ARGS
        if n in ("opt_init", "opt_init2", "opt_destroy", "opt_destroy2", "opt_null_after", "read", "destroy", "destroy_nulls", "seqfile(o,NULL)"):
            want = OK
        elif n.startswith("type="):
            want = OK if int(n[5:]) <= 1 else ARGS
        elif n.startswith("version="):
            want = OK if 1 <= int(n[8:]) <= 3 else ARGS
        elif n.startswith(("comp=", "addblk=")):
            a, b = map(int, n.split("=")[1].split(":"))
            want = OK if a <= 6 and b <= 9 else ARGS
        if rc != want:
            out.bad("contract: %s returns %d" % (n.split("=")[0], rc), "%s returned %d, documented %d" % (n, rc, want), {"delta.drpm": ob}, [("contract", f)])
    for t, bad in o["tags"]:
        out.add("getter_calls", 12)
        if bad:
            out.bad("getter contract", "tag %d: %d calls with null arguments or an unknown tag not refused or something written" % (t, bad), {"delta.drpm": ob},
                    [("contract", f)])
    ms = o["strerror"]
    known, und = ms[2:13], ms[:2] + ms[13:]
    if len(set(known)) != 11 or not all(known) or len(set(und)) != 1 or und[0] in known or not und[0] or o["odd_messages"]:
        out.bad("error messages", repr((ms, o["odd_messages"])), {}, [("contract", f)])
    out.add("messages", 210000)
    left = [x for x in os.listdir(d) if x != "x.drpm"]
    if left:
        out.bad("files created", repr(left), {}, [("contract", f)])
    out.sig(("contract", dl.rpmonly, dl.version))


def setup(ctx, r, d):
    p = G.pair(r, ctx.helper, maxlen=900, nfiles=r.choice([1, 3]), source=False)
    std = dgen.make_delta(r, p, ctx.helper, rpmonly=False)
    ro = dgen.make_delta(r, p, ctx.helper, rpmonly=True)
    w = work.Work(ctx, r, d, maxlen=300, failing=False)            # a database that does not hold the package
    cl = {"null": "-", "empty name": "", "missing": os.path.join(d, "none"), "directory": d}
    for n, b in (("empty", b""), ("garbage", r.randbytes(300)), ("text", b"not a package\n"), ("old", p.oldb), ("new", p.newb), ("standard", std[1]),
                 ("rpm-only", ro[1]), ("cut package", p.oldb[:R.RpmParts(p.oldb).hdr_end - 10])):
        cl[n] = os.path.join(d, "in." + n.replace(" ", "_"))
        write(cl[n], b)
    return p, std, ro, w, cl


def matrix(ctx, r, i, out):
    d = ctx.fresh()
    p, std, ro, w, cl = setup(ctx, r, d)
    x = os.path.join(d, "out.x")
    sid = std[0].src_nevr + "-" + std[0].sequence.hex()
    units, want = [], []

    def add(op, exp, desc):
        units.append([op])
        want.append((exp, desc))
    outs = {"null": "-", "fresh": x, "empty name": "", "directory": d, "no directory": os.path.join(d, "no", "x")}
    rpms = ("old", "new")
    opts = {"NULL": "NULL", "fresh": "init", "rpm-only": "init,type=1", "v1": "init,version=1", "rpm-only v2": "init,type=1,version=2",
            "rpm-only v1 then 3": "init,version=1,type=1,version=3"}
    for a, b, o, s in itertools.product(cl, cl, outs, opts):
        if a not in ("null", "old") and b not in ("null", "new") and r.random() < 0.8:
            continue
        e = "ARGS" if o == "null" or (a == "null" and b == "null") or s == "rpm-only v2" else \
            "OK" if o == "fresh" and {a, b} <= {"old", "new", "null"} else "error"
        if {a, b} <= {"standard", "null", "old", "new"} and e == "error" and "standard" in (a, b):
            e = None                                                     # a standard delta has the shape of a package
        if o == "fresh" and e == "OK" and r.random() < 0.3:
            continue
        add(("make", cl[a], cl[b], outs[o], opts[s]), e, "make old=%s new=%s out=%s options=%s" % (a, b, o, s))
    for a, b, o in itertools.product(cl, cl, outs):
        e = "ARGS" if b == "null" or o == "null" else "OK" if a == "old" and b in ("standard", "rpm-only") and o == "fresh" else "error"
        if a == "null" and b == "rpm-only" and o == "fresh":
            e = "late ARGS"
        if e == "OK":
            e = None                                                     # decided by P07
        add(("apply", cl[a], cl[b], outs[o]), e, "apply old=%s delta=%s out=%s" % (a, b, o))
    for b, m in itertools.product(cl, MODES):
        e = "ARGS" if b == "null" or m not in (1, 2) else "error"
        add(("check", cl[b], m), e, "check delta=%s mode=%d" % (b, m))
    seqs = {"null": "-", "empty": "", "no dash": "abc", "dash": "-", "short": "a-1-1-00", "not hex": "a-1-1-" + "0g" * 20, "good": sid,
            "leading dash": "-" + "0" * 40, "trailing dash": std[0].src_nevr + "-"}
    for a, s, m in itertools.product(cl, seqs, MODES):
        e = "ARGS" if s == "null" or m not in (0, 1, 2) or (a != "null" and m != 0) else \
            "OK" if s == "good" and a == "old" and m == 0 else "NOINSTALL" if s == "good" and a == "null" else "error"
        if s == "good" and a == "new" and m == 0:
            e = "error"
        if s == "dash":
            continue                                                     # '-' is null for the driver
        add(("seq", cl[a], seqs[s], m), e, "seq old=%s sequence=%s mode=%d" % (a, s, m))
    for b in cl:
        if b != "null":
            add(("read", cl[b]), "OK" if b in ("standard", "rpm-only") else "error", "read %s" % b)
    before = sorted(os.listdir(d))
    pre = [[("fault count\t" + "\t".join(str(q) for q in u[0]))] for u in units]
    todo = run_packed(ctx.drv("small", env=w.env), pre, per=60)
    for g, u, (e, desc) in zip(todo, units, want):
        c = crashed(g, 1)
        out.add("combinations")
        if c:
            out.bad(c[0], desc + "\n" + c[1], {"old.rpm": p.oldb, "standard.drpm": std[1], "rpmonly.drpm": ro[1]}, u)
            continue
        o = g["ops"][0]
        rc = o["rc"]
        cls = "ARGS" if rc == ARGS else "OK" if rc == OK else "error" if rc in CODES else "undocumented"
        out.add("returned_" + cls)
        out.sig(desc)
        files = {"old.rpm": p.oldb, "new.rpm": p.newb, "standard.drpm": std[1], "rpmonly.drpm": ro[1]}
        if cls == "undocumented":
            out.bad("undocumented code %d from %s" % (rc, u[0][0]), desc, files, u)
        elif e == "ARGS":
            if rc != ARGS:
                out.bad("%s accepts arguments outside its contract" % u[0][0], "%s returned %d" % (desc, rc), files, u)
            elif o["cio"] or o["cdep"] or o["wrote"]:
                out.bad("%s touches files before refusing its arguments" % u[0][0], "%s: %d file operations, wrote %s" % (desc, o["cio"] + o["cdep"], o["wrote"]), files, u)
            else:
                out.add("refused_before_any_file")
        elif e == "late ARGS":
            if rc != ARGS:
                out.bad("%s: rpm-only delta without old package" % u[0][0], "%s returned %d" % (desc, rc), files, u)
        elif e == "NOINSTALL":
            if rc != NOINSTALL:
                out.bad("%s: package not in the database" % u[0][0], "%s returned %d" % (desc, rc), files, u)
        elif e and e != cls:
            out.bad("%s: %s instead of %s" % (u[0][0], cls, e), "%s returned %d" % (desc, rc), files, u)
        if u[0][0] == "read" and rc and not o["ptr_null"]:
            out.bad("handle not null after a failed read", desc, files, u)
    after = sorted(os.listdir(d))
    if [n for n in after if n not in before and n != "out.x"]:
        out.bad("files created", repr([n for n in after if n not in before]), {}, [])


def codes(ctx, r, i, out):
    """Return values on hostile inputs of every kind are documented codes, and failed reads leave a null handle."""
    d = ctx.fresh()
    p = G.pair(r, ctx.helper, maxlen=2000, nfiles=r.choice([1, 3, 6]))
    a, b, x = os.path.join(d, "o.rpm"), os.path.join(d, "n.rpm"), os.path.join(d, "x")
    write(a, p.oldb)
    write(b, p.newb)
    ds = [dgen.make_delta(r, p, ctx.helper)[:2] for _ in range(3)]
    units, files = [], []
    for q in range(60):
        dl, ob = r.choice(ds)
        lab, hb = hostile.delta(r, dl, ob, ctx.helper, ds)
        f = os.path.join(d, "%d.drpm" % q)
        write(f, hb)
        units.append([("read", f), ("apply", a, f, x), ("check", f, 1)])
        files.append({"bad.drpm": hb, "old.rpm": p.oldb})
    for q in range(25):
        lab, hb = hostile.package(r, p.old, p.oldb, ctx.helper)
        f = os.path.join(d, "%d.rpm" % q)
        write(f, hb)
        sp = G.options(r, p.new.comp)[0]
        units.append([("make", f, b, x, sp), ("make", a, f, x, sp), ("read", f), ("seq", f, ds[0][0].src_nevr + "-" + ds[0][0].sequence.hex(), 0)])
        files.append({"bad.rpm": hb, "old.rpm": p.oldb, "new.rpm": p.newb})
    for g, u, fl in zip(run_packed(ctx.drv("rescue"), units, per=20), units, files):
        if crashed(g, len(u)):
            out.add("crashes_left_to_P08_P09")
            continue
        for o, op in zip(g["ops"], u):
            out.add("hostile_calls")
            out.add("hostile_rc_%d" % o["rc"])
            if o["rc"] not in CODES:
                out.bad("undocumented code %d from %s" % (o["rc"], op[0]), repr(op), fl, u)
            if op[0] == "read" and o["rc"] and not o["ptr_null"]:
                out.bad("handle not null after a failed read", repr(op), fl, u)


def both(ctx, r, i, out):
    [contract, matrix, codes][i % 3](ctx, r, i, out)


def main():
    c = Check("P19", "exploration", "distinct = combinations of argument classes tried (and kinds of delta the fixed contract list ran on)", [])
    c.build(["asan", ("small", B.fault_args("asansmall"))])
    n = 200 if c.thorough() else 8
    c.map(both, 3 * n)
    t = c.total.counts
    c.finish(t.get("combinations", 0) + t.get("contract_calls", 0) + t.get("getter_calls", 0) + t.get("hostile_calls", 0),
             {"combinations": n * 1500, "refused_before_any_file": n * 500, "returned_OK": n * 5, "contract_calls": n * 300, "hostile_calls": n * 200})


if __name__ == "__main__":
    main()
