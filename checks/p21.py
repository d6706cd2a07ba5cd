"""P21: deltas carry only what is new. Packages with contents whose relation is known (incompressible data, counted edits) are made into
deltas; the independent decoder counts what the delta carries."""
import os
import deltafmt as D
import gen as G
import rpmgen as R
from run import Check, crashed, made, run_packed
from p01 import write

CHUNK = 1024            # shared pieces are at least that long


def derive(r, data, nops, pool):
    """(new content, bytes that occur nowhere in the old package, number of places where the source changes)."""
    cuts = sorted(r.sample(range(len(data) // CHUNK + 1), min(nops, len(data) // CHUNK + 1)))
    out, novel, seams, last = [], 0, 0, 0
    for c in cuts:
        p = c * CHUNK
        out.append(data[last:p])
        last = p
        seams += 2
        k = r.randrange(6)
        if k == 0:                                                # some bytes replaced
            n = r.choice([1, 2, 16, 100, 700])
            n = min(n, len(data) - p)
            out.append(r.randbytes(n))
            novel += n
            last = p + n
        elif k == 1:                                              # inserted
            n = r.choice([1, 3, 17, 300, 5000])
            out.append(r.randbytes(n))
            novel += n
        elif k == 2:                                              # deleted
            last = p + min(r.choice([1, 5, 33, 1000]), len(data) - p)
        elif k == 3:                                              # taken from elsewhere in the old package
            src = r.choice(pool)
            if len(src) > CHUNK:
                q = r.randrange(len(src) - CHUNK)
                out.append(src[q:q + r.randrange(CHUNK, min(len(src) - q, 9000) + 1)])
        elif k == 4:                                              # single bytes changed every so often
            n = min(len(data) - p, 900)
            b = bytearray(data[p:p + n])
            for i in range(0, n, r.choice([64, 150, 300])):
                b[i] ^= r.randrange(1, 256)
                novel += 1
                seams += 1
            out.append(bytes(b))
            last = p + n
        else:                                                     # a piece moved away is in the pool of others
            last = min(len(data), p + CHUNK)
    out.append(data[last:])
    return b"".join(out), novel, seams


def related(r, helper, total, many=False):
    """A pair of packages and (novel bytes, seams)."""
    n = r.choice([1, 1, 2, 5, 12]) if not many else r.choice([300, 1500])
    names = [b"/usr/share/p/" + b"%d-" % i + r.choice(G.WORDS) for i in range(n)]
    datas = [r.randbytes(max(2 * CHUNK, r.randrange(total // n // 2, total // n + 1))) for _ in range(n)]
    mk = lambda nm, b: G.File(nm, R.S_IFREG | 0o644, b, cpio_name=b"." + nm)
    fo = [mk(a, b) for a, b in zip(names, datas)]
    fn, novel, seams = [], 0, 0
    for a, b in zip(names, datas):
        k = r.random()
        if k < 0.12 and n > 1:
            continue
        if k < 0.24:
            a = a + b".moved"
        if k < 0.7:
            b, x, y = derive(r, b, r.choice([1, 2, 4, 15]), datas)
            novel += x
            seams += y
        fn.append(mk(a, b))
    for i in range(r.choice([0, 0, 1, 2])):
        b = r.randbytes(r.choice([0, 10, 3000]))
        novel += len(b)
        fn.append(mk(b"/usr/share/p/new%d" % i, b))
    if r.random() < 0.3:
        r.shuffle(fn)
    if r.random() < 0.3:
        r.shuffle(fo)
    p = G.Pair()
    m = dict(G.rand_meta(r), dirnames=True)
    p.old = R.Rpm(files=fo, comp=r.choice(["gzip", "xz", "zstd", "bzip2"]), level=1, **m)
    p.new = R.Rpm(files=fn, comp=r.choice(["gzip", "zstd", "bzip2"]), level=3, **dict(m, version=b"7.7"))
    p.oldb, p.newb = p.old.build(helper), p.new.build(helper)
    return p, novel, seams


def unit(ctx, r, i, out):
    d = ctx.fresh()
    groups, meta = [], []
    for k in range(4):
        total = r.choice([8000, 60000, 300000, 300000])
        if k == 0 and i % 12 == 5:
            total = r.choice([1500000, 4000000] if ctx.tier == "quick" else [4000000, 24000000])
        if k == 1 and i % 50 == 2:
            total = r.choice([18000000, 36000000]) if ctx.tier == "quick" else r.choice([36000000, 140000000])
        p, novel, seams = related(r, ctx.helper, total, many=k == 2 and i % 25 == 3)
        spec, o = G.options(r, p.new.comp, allow_v1=False, maxlevel=1)
        a, b, dl = (os.path.join(d, "%d.%s" % (k, x)) for x in ("old.rpm", "new.rpm", "drpm"))
        write(a, p.oldb)
        write(b, p.newb)
        groups.append([("make", a, b, dl, spec)])
        meta.append((p, novel, seams, spec, o, a, b, dl, total))
    res = run_packed(ctx.drv("plain"), groups)
    for g, grp, (p, novel, seams, spec, o, a, b, dl, total) in zip(res, groups, meta):
        fl = {"old.rpm": p.oldb, "new.rpm": p.newb, "delta.drpm": dl}
        what = "%d old bytes in %d files, %d novel bytes, %d seams, opts=%s" % (total, len(p.old.files), novel, seams, spec)
        c = crashed(g, 1)
        if c or g["ops"][0]["rc"] != 0:
            out.bad("make failed", what + "\n" + (c[1] if c else "rc %d" % g["ops"][0]["rc"]), fl, grp)
            continue
        dd = made(ctx, dl)
        new = R.RpmParts(p.newb)
        add = R.decompress(ctx.helper, dd.add_data)[1] if dd.add_data else b""
        changed = len(add) - add.count(0)
        # what archive entries (headers: 110 bytes, name, padding) and the package header may bring along
        base = 640 + sum(260 + 2 * len(f.name) for f in p.new.files) + (len(new.header) if o["rpmonly"] else 0)
        carried = len(dd.int_data) + changed
        allowed = base + novel * 5 // 4 + 150 * seams
        out.add("deltas_measured")
        out.add("payload_bytes", len(D.uncompressed(new, ctx.helper)))
        out.add("novel_bytes", novel)
        out.add("carried_bytes", carried)
        out.sig((len(p.old.files), len(p.new.files), novel, seams, spec))
        out.sample("%s -> %d carried, %d allowed" % (what, carried, allowed))
        if carried > allowed:
            out.bad("the delta carries data that the old package has", "%s\n%d bytes of internal data, %d nonzero bytes of the add block of %d; at most %d expected"
                    % (what, len(dd.int_data), changed, len(add), allowed), fl, grp)
        if os.environ.get("VERIF_MARGIN"):
            print("M %.3f %d %d %s" % (carried / allowed, carried, allowed, what), flush=True)
        if not dd.rpmonly and (o["comp"] not in ("none",)) and (o["addblk"] not in ("none",)):
            # compressed, the whole file is not much more than that
            lim = allowed * 1.1 + len(new.header) + len(new.leadsig) + 2048 + 24 * (len(dd.ext_copies) + len(dd.int_copies)) + len(add) // 100
            out.add("files_measured")
            if os.environ.get("VERIF_MARGIN"):
                print("F %.3f %s" % (os.path.getsize(dl) / lim, what), flush=True)
            if os.path.getsize(dl) > lim:
                out.bad("the delta file is too large", "%s\n%d bytes, at most %d expected" % (what, os.path.getsize(dl), lim), fl, grp)


def main():
    c = Check("P21", "exploration", "distinct = (numbers of files, novel bytes, places of change, options) of a produced delta whose content was measured",
              ["contents are random bytes, so that what is novel is known"])
    c.build(["plain"])
    n = 2500 if c.thorough() else 150
    c.map(unit, n)
    t = c.total.counts
    c.finish(t.get("deltas_measured", 0), {"deltas_measured": n * 4, "files_measured": n})


if __name__ == "__main__":
    main()
