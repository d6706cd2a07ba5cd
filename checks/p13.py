"""P13: every call terminates within bounds set by its input."""
import copy, hashlib, os, signal, struct
import build as B
import deltafmt as D
import dgen
import fslib
import gen as G
import hostile
import malform
import rpml
import rpmgen as R
import work
from run import Check, Drv, SLOW, crashed
from p01 import write

CPU, CPU_ALONE = 20, 25          # seconds of processor time: for a pack of calls, for one call alone
MEM = 5 << 30                    # address space of a call; far above what any of these inputs backs
RSS_KB = 1500 << 10
ENV = {"DRPMV_AS": str(MEM), "DRPMV_FSIZE": str(1 << 30)}
INV = {D.ALGO_ENC[k]: k for k in D.ALGO_ENC}
COMPS = ["gzip", "bzip2", "xz", "lzma", "zstd", "lzip"]


class Job:
    env = {}

    def __init__(self, kind, what, ops, files):
        self.kind, self.what, self.ops, self.files = kind, what, ops, files


def fib(n):
    a, b = b"a", b"ab"
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def pathological(r, n):
    """(label, content of about n bytes) that is hard on substring search and sorting."""
    k = r.randrange(13)
    if k == 0:
        return "zeros", bytes(n)
    if k == 1:
        p = r.choice([1, 2, 3, 7, 8, 16, 255, 4096, 8192])
        return "period %d" % p, (r.randbytes(p) * (n // p + 1))[:n]
    if k == 2:
        return "fibonacci", fib(n)
    if k == 3:
        b = bytearray(n)
        for _ in range(r.choice([1, 5, 100])):
            b[r.randrange(n)] = 1
        return "zeros with marks", bytes(b)
    if k == 4:
        return "two letters", bytes(r.choice(b"ab") for _ in range(n))
    if k == 5:
        return "zeros then one", bytes(n - 1) + b"\1"
    if k == 6:
        return "one then zeros", b"\1" + bytes(n - 1)
    if k == 7:
        return "ramps", bytes(range(256)) * (n // 256)
    if k == 8:
        blk = r.randbytes(64)
        return "blocks with one byte changed", b"".join(blk[:i % 64] + bytes([r.randrange(256)]) + blk[i % 64 + 1:] for i in range(n // 64))
    if k == 9:
        return "counters", b"".join(b"%08d" % i for i in range(n // 8))
    if k == 10:
        h = r.randbytes(n // 2)
        return "doubled", h + h
    if k == 11:
        h = fib(n // 2)
        return "mirrored", h + h[::-1]
    return "random", r.randbytes(n)


def k_content(ctx, r, d, out):
    """Packages whose contents are pathological for the difference search."""
    jobs = []
    for q in range(2):
        nf = r.choice([1, 1, 2, 40])
        n = r.choice([20000, 100000, 300000, 1000000]) // nf
        fo, fn, lab = [], [], []
        for i in range(nf):
            la, a = pathological(r, n)
            if r.random() < 0.5:
                b = bytearray(a)
                for _ in range(r.choice([0, 1, 10])):
                    j = r.randrange(len(b))
                    if r.random() < 0.5:
                        b[j] ^= 1
                    else:
                        b[j:j] = r.randbytes(r.choice([1, 5, 33]))
                lb, b = la + " edited", bytes(b)
            else:
                lb, b = pathological(r, n)
            fo.append(R.File(b"/f%d" % i, data=a))
            fn.append(R.File(b"/f%d" % i, data=b))
            lab = [la, lb]
        comp = r.choice(["none", "gzip", "zstd"])
        old = R.Rpm(files=fo, comp=comp, level=1 if comp != "none" else 0)
        new = R.Rpm(files=fn, comp=comp, level=1 if comp != "none" else 0, version=b"2")
        for m in (old, new):
            m.order = list(m.files)
        a, b = os.path.join(d, "p%d.old.rpm" % q), os.path.join(d, "p%d.new.rpm" % q)
        ob, nb = old.build(ctx.helper), new.build(ctx.helper)
        write(a, ob)
        write(b, nb)
        x, y = os.path.join(d, "p%d.drpm" % q), os.path.join(d, "p%d.out" % q)
        for sp in ("init,type=%d,comp=%d:1,addblk=%d:1" % (r.randrange(2), r.choice([1, 6]), r.choice([0, 1, 2, 6])), "init,comp=1:1,noaddblk"):
            jobs.append(Job("content", "%d files of %d bytes, %s -> %s" % (nf, n, lab[0], lab[1]),
                            [("make", a, b, x, sp), ("apply", a, x, y), ("read", x)], {"old.rpm": ob, "new.rpm": nb}))
    return jobs


def k_deltas(ctx, r, d, out):
    """Hostile deltas."""
    p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000, 20000]), nfiles=r.choice([1, 3, 6]))
    a, jobs, ds = os.path.join(d, "h.old.rpm"), [], []
    write(a, p.oldb)
    for m in range(4):
        dl, ob, exp = dgen.make_delta(r, p, ctx.helper, nodiff=r.random() < 0.06)
        ds.append((dl, ob))
    for dl, ob in ds:
        for q in range(20):
            lab, b = hostile.delta(r, dl, ob, ctx.helper, ds)
            f = os.path.join(d, "h%d.bad" % len(jobs))
            write(f, b)
            jobs.append(Job("hostile delta", lab, [("read", f), ("apply", a, f, os.path.join(d, "h.out")), ("check", f, 1)],
                            {"bad.drpm": b, "old.rpm": p.oldb}))
    return jobs


def k_packages(ctx, r, d, out):
    """Hostile packages, patch lists, sequence IDs."""
    p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000]), nfiles=r.choice([1, 3, 6]))
    a, b, x = os.path.join(d, "g.old.rpm"), os.path.join(d, "g.new.rpm"), os.path.join(d, "g.out")
    write(a, p.oldb)
    write(b, p.newb)
    parts = R.RpmParts(p.oldb)
    dl, ob, exp = dgen.make_delta(r, p, ctx.helper)
    df = os.path.join(d, "g.drpm")
    write(df, ob)
    jobs = []
    for q in range(24):
        lab, hb = hostile.package(r, p.old, p.oldb, ctx.helper)
        f = os.path.join(d, "g%d.bad" % q)
        write(f, hb)
        o1, _ = G.options(r, p.new.comp)
        o2, _ = G.options(r, p.new.comp)
        jobs.append(Job("hostile package", lab, [("make", f, b, x, o1), ("make", a, f, x, o2), ("apply", f, df, x),
                                                 ("seq", f, dl.src_nevr + "-" + dl.sequence.hex(), 0)],
                        {"bad.rpm": hb, "old.rpm": p.oldb, "new.rpm": p.newb, "delta.drpm": ob}))
    for q in range(16):
        pr, pl = work.patch_lists(r, p.old, parts)
        if q % 2:
            pr = hostile.havoc(r, pr)
        else:
            pl = hostile.havoc(r, pl)
        f, g = os.path.join(d, "g%d.print" % q), os.path.join(d, "g%d.patch" % q)
        write(f, pr)
        write(g, pl)
        jobs.append(Job("patch list", "patch list", [("make", a, b, x, "init,comp=1:1,patches=%s:%s" % (f, g))],
                        {"print": pr, "patch": pl, "old.rpm": p.oldb, "new.rpm": p.newb}))
    md5 = D.full_sequence(D.file_list(parts), [], D.digest_algo(parts))[:16]
    for q in range(10):
        n = r.choice([1, 50, 5000, 30000])
        k = r.randrange(6)
        s = [bytes(n), b"\xff" * n, r.randbytes(n), b"\x80" * n, b"\x7f" * n, D.seq_encode(list(range(0, 2 * n, 2)))][k]
        sid = parts.nevr() + "-" + (r.choice([md5, r.randbytes(16)]) + s).hex()
        jobs.append(Job("sequence ID", "sequence of %d bytes, kind %d" % (len(s), k), [("seq", a, sid, 0)], {"old.rpm": p.oldb, "sequence": sid.encode()}))
    return jobs


def damage(r, z):
    """Damaged versions of a compressed stream: cut or changed at many places, followed by other data."""
    n = len(z)
    cuts = list(range(0, min(n, 40))) + list(range(max(0, n - 40), n)) if n > 80 else list(range(n))
    cuts += [r.randrange(n) for _ in range(10)] if n else []
    for c in r.sample(cuts, min(len(cuts), 24)):
        yield "cut to %d of %d" % (c, n), z[:c]
    for _ in range(14):
        i = r.choice([r.randrange(n), r.randrange(min(n, 24)), n - 1 - r.randrange(min(n, 24))])
        yield "byte %d of %d changed" % (i, n), z[:i] + bytes([z[i] ^ r.choice([1, 0x80, 0xff, 1 << r.randrange(8)])]) + z[i + 1:]
    for t in (b"\0", b"\0" * 4, b"\0" * 13, b"\0" * 4096, z, z[:r.randrange(n)], r.randbytes(30), z[:6], z[:4] + r.randbytes(3), b"LZIP", b"LZIP\1\0"):
        yield "followed by %d bytes" % len(t), z + t
    yield "twice, the second cut", z + z[:max(1, n - 5)]
    yield "last bytes zero", z[:-8] + bytes(8)


def k_streams(ctx, r, d, out):
    """Damaged compressed streams in every place the library decompresses."""
    jobs = []
    comp = r.choice(COMPS)
    n = r.choice([1, 3])
    p = G.pair(r, ctx.helper, maxlen=r.choice([200, 2000, 30000]), nfiles=n, comps=[comp if comp != "lzip" else "gzip"], same_comp=True)
    a, b, x = os.path.join(d, "s.old.rpm"), os.path.join(d, "s.new.rpm"), os.path.join(d, "s.out")
    write(a, p.oldb)
    write(b, p.newb)
    dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=r.random() < 0.5, comps=[comp])
    df = os.path.join(d, "s.drpm")
    write(df, ob)
    inp = {"old.rpm": p.oldb, "new.rpm": p.newb, "delta.drpm": ob}
    zo = len(dl.front()) if dl.rpmonly else R.RpmParts(ob).hdr_end
    raw = b"".join(v for _, v in malform.fields(dl))
    z = R.compress(ctx.helper, comp, 1, raw)
    for i, (lab, s) in enumerate(damage(r, z)):
        f = os.path.join(d, "s%d.drpm" % i)
        write(f, ob[:zo] + s)
        jobs.append(Job("damaged %s delta" % comp, lab, [("read", f), ("apply", a, f, x)], dict(inp, **{"bad.drpm": ob[:zo] + s})))
    if dl.add_data:
        za = R.compress(ctx.helper, comp, 1, r.randbytes(200) * 3)
        for i, (lab, s) in enumerate(damage(r, za)):
            y = copy.copy(dl)
            y.add_data = s
            try:
                e = y.encode(ctx.helper)
            except Exception:
                break
            f = os.path.join(d, "sa%d.drpm" % i)
            write(f, e)
            jobs.append(Job("damaged %s add block" % comp, lab, [("apply", a, f, x)], dict(inp, **{"bad.drpm": e})))
    w = R.RpmParts(p.oldb)
    zp = R.compress(ctx.helper, comp, 1, D.uncompressed(w, ctx.helper))
    for i, (lab, s) in enumerate(damage(r, zp)):
        f = os.path.join(d, "sp%d.rpm" % i)
        bad = p.oldb[:w.hdr_end] + s
        write(f, bad)
        ops = [("make", f, b, x, "init,comp=1:1,type=%d" % (i & 1)), ("apply", f, df, x)]
        if i % 3 == 0:
            ops += [("make", a, f, x, "init,comp=1:1,type=%d" % (i >> 1 & 1)), ("make", f, "-", x, "init,comp=1:1")]
        jobs.append(Job("damaged %s payload" % comp, lab, ops, dict(inp, **{"bad.rpm": bad})))
    return jobs


def k_claims(ctx, r, d, out):
    """Deltas that claim sizes and counts their data does not back, and ones with very many or empty copies."""
    p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000]), nfiles=2)
    a, x, jobs = os.path.join(d, "c.old.rpm"), os.path.join(d, "c.out"), []
    write(a, p.oldb)

    def job(lab, b):
        f = os.path.join(d, "c%d.drpm" % len(jobs))
        write(f, b)
        jobs.append(Job("claims", lab, [("read", f), ("apply", a, f, x), ("check", f, 2)], {"bad.drpm": b, "old.rpm": p.oldb}))
    for m in range(3):
        dl, ob, exp = dgen.make_delta(r, p, ctx.helper, comps=["gzip"])
        names = [n for n, _ in malform.fields(dl)]
        for nm in names:
            if nm.endswith("_len") or nm.endswith("_n") or nm in ("size", "fmtoff", "hdr_len"):
                for v in r.sample([0x7fffffff, 0x80000000, 0xffffffff, 0x10000000, 0x01000000, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1], 4):
                    fs = malform.fields(dl)
                    i = names.index(nm)
                    w = len(fs[i][1])
                    if w == 4 and v >= 1 << 32:
                        continue
                    fs[i][1] = v.to_bytes(w, "big")
                    cut = r.random() < 0.3
                    s = b"".join(c for _, c in (fs[:i + 1] if cut else fs))
                    job("%s = %#x%s" % (nm, v, ", then nothing" if cut else ""), dl.encode(ctx.helper, s))
        y = copy.copy(dl)
        n = r.choice([1000, 200000])
        k = r.randrange(4)
        if k == 0:
            y.ext_copies = [(0, 0)] * n
            y.int_copies = list(dl.int_copies)
        elif k == 1:
            y.int_copies = [(0, 0)] * n
        elif k == 2:
            y.int_copies = [(1, 0)] * min(n, 60000) + list(dl.int_copies)
            y.ext_copies = [(0, 0)] * min(n, 60000) + list(dl.ext_copies)
        else:
            z = max(0, min(dl.ext_len, 4000))
            y.ext_copies = [(0 if i == 0 else -z, z) for i in range(r.choice([10, 4000]))]
            y.int_copies = [(len(y.ext_copies), 0)] + list(dl.int_copies)
        try:
            job("%d copies, kind %d" % (n, k), y.encode(ctx.helper))
        except (struct.error, ValueError, OverflowError):
            pass
        y = copy.copy(dl)
        y.offadj = [(r.choice([0, 1, 0x7fffffff]), r.choice([0, 1, -1, 0x7fffffff])) for _ in range(r.choice([10, 50000]))]
        try:
            job("%d offset adjustments" % len(y.offadj), y.encode(ctx.helper))
        except (struct.error, ValueError, OverflowError):
            pass
        y = copy.copy(dl)
        if not y.rpmonly:
            y.sequence = dl.sequence[:16] + r.choice([bytes(100000), b"\xff" * 100000, r.randbytes(100000), b"\x88" * 50000])
            job("sequence of %d bytes" % len(y.sequence), y.encode(ctx.helper))
        fs = malform.fields(dl)
        i = names.index("int_data")
        fs[i][1] += bytes(r.choice([1 << 20, 30 << 20]))
        if r.random() < 0.5:
            fs[i - 1][1] = len(fs[i][1]).to_bytes(len(fs[i - 1][1]), "big")
        job("%d zero bytes" % len(fs[i][1]), dl.encode(ctx.helper, b"".join(c for _, c in fs)))
    return jobs


def k_devices(ctx, r, d, out):
    """Endless and empty files, directories and unwritable places as inputs and outputs."""
    p = G.pair(r, ctx.helper, maxlen=500, nfiles=2)
    a, b = os.path.join(d, "d.old.rpm"), os.path.join(d, "d.new.rpm")
    write(a, p.oldb)
    write(b, p.newb)
    dl, ob, exp = dgen.make_delta(r, p, ctx.helper)
    f, x = os.path.join(d, "d.drpm"), os.path.join(d, "d.out")
    write(f, ob)
    jobs = []
    for s in ("/dev/zero", "/dev/urandom", "/dev/null", "/dev/full", d, "/dev/stdin", os.path.join(d, "none")):
        jobs.append(Job("device", s, [("read", s), ("check", s, 1), ("apply", a, s, x), ("apply", s, f, x), ("make", s, b, x, "init"),
                                      ("make", a, s, x, "init"), ("make", s, "-", x, "init,type=1"), ("seq", s, dl.src_nevr + "-" + dl.sequence.hex(), 0),
                                      ("make", a, b, x, "init,comp=1:1,patches=%s:%s" % (s, s))], {"old.rpm": p.oldb, "delta.drpm": ob}))
    for s in ("/dev/full", "/dev/null", d, os.path.join(d, "no", "x")):
        jobs.append(Job("device", "output " + s, [("apply", a, f, s), ("make", a, b, s, "init,comp=1:1"), ("make", a, b, s, "init,type=1"),
                                                  ("make", a, b, x, "init,comp=1:1,seqfile=" + s)], {"old.rpm": p.oldb, "delta.drpm": ob}))
    return jobs


def k_installed(ctx, r, d, out):
    """Applying and checking against installed files in every wrong state."""
    db, root = fslib.Db(d), os.path.join(d, "r")
    p = fslib.pair(ctx, r, root, b"pkg", source=False, maxlen=r.choice([300, 9000, 40000]), nfiles=r.choice([2, 6, 60]))
    db.add([R.RpmParts(p.oldb).header])
    x, jobs = os.path.join(d, "i.out"), []
    ops = []
    for m in range(6):
        dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=False)
        f = os.path.join(d, "i%d.drpm" % m)
        write(f, ob)
        ops += [("apply", "-", f, x), ("check", f, 1), ("check", f, 2), ("seq", "-", dl.src_nevr + "-" + dl.sequence.hex(), 1)]
    what = []
    for f in p.old.files:
        q = os.fsdecode(f.name)
        if f.isreg() and f.in_header and not os.path.islink(q) and os.path.isfile(q) and r.random() < 0.4:
            what.append(fslib.mutate(r, q, r.choice([None, "truncate", "empty", "directory"])))
    j = Job("installed files", "installed files: " + "+".join(sorted(set(what))), ops, {"old.rpm": p.oldb, "delta.drpm": ob})
    j.env = db.env
    return [j]


KINDS = [k_installed, k_deltas, k_streams, k_packages, k_content, k_claims, k_streams, k_content, k_deltas, k_streams, k_packages, k_devices, k_claims]


def verdict(g, nops):
    if g["sig"] == signal.SIGXFSZ:
        return "endless output"
    if g["sig"] in SLOW:
        return "no answer"
    if any(o["rss_kb"] > RSS_KB for o in g["ops"]):
        return "runaway memory"
    return None


def unit(ctx, r, i, out):
    d = ctx.fresh()
    jobs = KINDS[i % len(KINDS)](ctx, r, d, out)
    drv = Drv(ctx.exes["rescue"], ctx.dir, cpu=CPU, wall=120, env=ENV)
    per = 10
    packs = [jobs[k:k + per] for k in range(0, len(jobs), per)]
    for pk in packs:
        g = drv.run([[op for j in pk for op in j.ops]], env=jobs[0].env)[0]
        if g["exit"] == 0 and not verdict(g, 0):
            k = 0
            for j in pk:
                note(out, j, g["ops"][k:k + len(j.ops)])
                k += len(j.ops)
        elif alone(drv, pk, out):
            return                          # shown: more of the same would only take time


def alone(drv, jobs, out):
    """Each call alone, with more time; True when one gave no answer."""
    for j in jobs:
        for op in j.ops:
            files = dict(j.files)
            if op[0] != "make" and j.kind == "content":       # needs the delta the first call made
                pre = [j.ops[0], op]
            else:
                pre = [op]
            g = drv.run([pre], cpu=CPU_ALONE + 10 * (len(pre) - 1), env=j.env)[0]
            v = verdict(g, len(pre))
            if v:
                out.bad("%s: %s of a %s" % (v, op[0], j.kind), "%s; %s, processor time allowed %d s, signal %s, %s" % (j.what, op, CPU_ALONE,
                        g["sig"], ["rss %d kB" % o["rss_kb"] for o in g["ops"]]), files, pre)
                if v == "no answer":
                    return True
            elif crashed(g, len(pre)):
                out.add("crashes_left_to_P08_P09")
            else:
                note(out, j, g["ops"][-1:])
    return False


def note(out, j, ops):
    out.add("inputs_" + j.kind.replace(" ", "_"))
    out.add("calls", len(ops))
    for o in ops:
        out.add("rc_%d" % o["rc"])
        for lim in (1000, 3000, 10000):
            if o["cpu_ms"] >= lim:
                out.add("calls_over_%d_ms" % lim)
        if o["rss_kb"] > 500 << 10:
            out.add("calls_over_500_MB")
    m = max([o["cpu_ms"] for o in ops] or [0])
    out.sig((j.kind, j.what, tuple(o["rc"] for o in ops)))
    if m >= 1000:
        out.sample("%s: %s -> %s, longest %d ms" % (j.kind, j.what, [o["rc"] for o in ops], m))


def main():
    c = Check("P13", "exploration", "distinct = (kind of input, what is special about it, results of the calls)",
              ["processor time of the uninstrumented build is what a user sees; inputs are at most about 1 MB, 30 MB decompressed"])
    c.build([])
    n = 4000 if c.thorough() else 182
    c.map(unit, n)
    t = c.total.counts
    c.finish(t.get("calls", 0), {"calls": n * 60, "rc_0": n * 10, "rc_4": n * 10})


if __name__ == "__main__":
    main()
