"""P05: reading a delta reports exactly what the file contains, through exactly the documented getters."""
import hashlib, os
import deltafmt as D
import dgen
import gen as G
import rpmgen as R
from run import Check, crashed, run_packed
from p01 import write

(FILENAME, VERSION, TYPE, COMP, SEQUENCE, SRCNEVR, TGTNEVR, TGTSIZE, TGTMD5, TGTCOMP, TGTCOMPPARAM, TGTHEADERLEN, ADJELEMS,
 TGTLEAD, PAYLOADFMTOFF, INTCOPIES, EXTCOPIES, EXTDATALEN, INTDATALEN) = range(19)
UINT = {VERSION, TYPE, COMP, TGTSIZE, TGTCOMP}
ULONG = UINT | {TGTHEADERLEN, PAYLOADFMTOFF}
ULLONG = ULONG | {EXTDATALEN, INTDATALEN}
STRING = {FILENAME, SEQUENCE, SRCNEVR, TGTNEVR, TGTMD5, TGTCOMPPARAM, TGTLEAD}
ARRAY = {ADJELEMS, INTCOPIES, EXTCOPIES}


def expected(d, path):
    """tag -> value, from the decoded or constructed delta alone."""
    u = lambda l: [x & 0xffffffff for p in l for x in p]
    e = {FILENAME: path, VERSION: d.version, TYPE: 1 if d.rpmonly else 0, COMP: D.API_COMP[d.comp], SEQUENCE: d.sequence.hex(),
         SRCNEVR: d.src_nevr, TGTNEVR: d.tgt_nevr, TGTSIZE: d.tgt_size if d.version >= 2 else 0, TGTMD5: d.tgt_md5.hex(),
         TGTCOMP: D.API_COMP[d.tgt_comp], TGTCOMPPARAM: d.tgt_comp_param.hex() if d.version >= 2 and d.tgt_comp_param else None,
         TGTHEADERLEN: d.tgt_header_len if d.version >= 3 else 0, ADJELEMS: u(d.offadj) if d.version >= 3 else [],
         TGTLEAD: d.leadsig.hex(), PAYLOADFMTOFF: d.payload_fmt_off, INTCOPIES: u(d.int_copies), EXTCOPIES: u(d.ext_copies),
         EXTDATALEN: d.ext_len, INTDATALEN: len(d.int_data)}
    return e


def compare(tags, e):
    """Yields texts of differences between what read reported and what the file says."""
    for t in range(-1, 21):
        g = tags[str(t)]
        want = [0 if t in s else 1 for s in (UINT, ULONG, ULLONG, STRING, ARRAY)]
        got = [0 if r == 0 else 1 if r == 2 else 9 for r in g["rc"]]
        if got != want:
            yield "getters", "tag %d: return codes %s, expected success/argument error %s" % (t, g["rc"], want)
        if "touched" in g:
            yield "refused getter wrote", "tag %d: getter %d wrote its result although it failed" % (t, g["touched"])
        if t not in e:
            continue
        v = e[t]
        for k in ("u", "ul", "ull"):
            if k in g and g[k] != v:
                yield "value of tag %d" % t, "%s reports %r, file says %r" % (k, g[k], v)
        if "s" in g and g["s"] != v:
            yield "value of tag %d" % t, "reports %r, file says %r" % (str(g["s"])[:300], str(v)[:300])
        if "a" in g:
            if g["a"] != v:
                yield "value of tag %d" % t, "reports %r, file says %r" % (str(g["a"])[:300], str(v)[:300])
            if g["anull"] != (not v):
                yield "array pointer of tag %d" % t, "null=%s for %d elements" % (g["anull"], len(v))


def wild(r, p, helper, big=0):
    """A delta whose fields take extreme values (it need not be applicable)."""
    new = R.RpmParts(p.newb)
    u32 = lambda: r.choice([0, 1, 127, 128, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32), r.getrandbits(16)])
    d = D.Delta()
    d.rpmonly = r.random() < 0.5
    d.version = 3 if d.rpmonly else r.choice([1, 2, 3])
    alpha = "abcXYZ0189.+~:-_\xe9\xff %"
    nm = lambda: "".join(r.choice(alpha) for _ in range(r.choice([0, 1, 5, 40, 700])))
    d.src_nevr = nm()
    d.tgt_nevr = nm() if d.rpmonly else new.nevr()
    d.comp = r.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "lzip", "none"])
    d.level = r.choice([1, 2, 6, 9]) if d.comp != "zstd" else r.choice([1, 3])
    d.lead, d.header = new.data[:96], D.patched_header(new.header, b"drpm")
    d.sequence = r.randbytes(16 if d.rpmonly else 16 + r.choice([0, 1, 2, 3, 17, 300, 9000]))
    d.tgt_md5 = r.choice([b"\0" * 16, r.randbytes(16), b"\xff" * 16])
    d.tgt_size = u32()
    if d.version == 1:
        d.tgt_comp = new.comp() or "none"
    else:
        d.tgt_comp = r.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "none"])
        d.tgt_level = r.choice([0, 1, 5, 9])
        if d.tgt_comp in ("gzip", "bzip2") and r.random() < 0.3:
            d.tgt_algo_code = {"gzip": 3, "bzip2": 4}[d.tgt_comp]
        d.tgt_comp_param = r.randbytes(r.choice([0, 0, 1, 5, 300]))
    d.tgt_header_len = (u32() or 1) if d.version == 3 else 0
    if d.version == 3:
        d.offadj = [(u32(), r.choice([1, -1]) * r.choice([0, 1, 0x7fffffff, r.getrandbits(31)])) for _ in range(r.choice([0, 1, 3, 400]))]
    d.leadsig = r.randbytes(r.choice([112, 113, 200, 5000]))
    d.payload_fmt_off = u32()
    d.ext_len = r.choice([0, 1, 8192, r.getrandbits(32), 0xffffffff] + ([r.getrandbits(40), 1 << 33] if d.version == 3 else []))
    pos = 0
    for _ in range(r.choice([0, 1, 4, 500])):
        lo, hi = max(0, pos - 0x7fffffff), min(d.ext_len, pos + 0x7fffffff)
        st = r.choice([lo, hi, pos, r.randint(lo, hi)])
        mx = min(d.ext_len - st, 0xffffffff)
        ln = r.choice([0, mx, r.randint(0, mx), min(mx, 100)])
        if st + ln == 0:
            continue
        d.ext_copies.append((st - pos, ln))
        pos = st + ln
    left = len(d.ext_copies)
    tot = 0
    for _ in range(r.choice([0, 1, 3, 200])):
        k = r.randint(0, left)
        left -= k
        ln = r.choice([0, 1, 50])
        tot += ln
        d.int_copies.append((k, ln))
    if left:
        d.int_copies.append((left, 0))
    if big:
        d.int_copies.append((0, big))
        tot += big
    d.int_data = r.randbytes(tot) if not big else r.randbytes(65537) * (tot // 65537 + 1)
    d.int_data = d.int_data[:tot]
    if not big and r.random() < 0.05:                  # more comes out of a piece of the compressed data than went in
        n = r.choice([140000, 300000, 700000, 2000000])
        d.int_data += bytes(n) if r.random() < 0.5 else bytes(r.choices(b"abcd", k=n))
        d.int_copies.append((0, n))
    if r.random() < 0.25:
        d.style = r.getrandbits(32)
    if r.random() < 0.5:
        d.add_data = r.randbytes(r.choice([8, 9, 500, 20000]))
    return d, d.encode(helper)


def unit(ctx, r, i, out):
    d = ctx.fresh()
    units, meta = [], []
    for k in range(6):
        p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000]), nfiles=r.choice([1, 3, 8]))
        a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
        write(a, p.oldb)
        write(b, p.newb)
        for m in range(10):
            f = os.path.join(d, "%d-%d%s.drpm" % (k, m, r.choice(["", " x", "é", "y" * 100])))
            if m < 6:
                dl, ob = wild(r, p, ctx.helper, r.choice([1 << 24, 0x1010203]) if m == 0 and k == 0 and i % 20 == 7 else 0)
                write(f, ob)
                units.append([("read", f)])
            elif m < 8:
                dl, ob, _ = dgen.make_delta(r, p, ctx.helper)
                write(f, ob)
                units.append([("read", f)])
            else:
                dl = None
                spec, o = G.options(r, p.new.comp)
                units.append([("make", a, b, f, spec), ("read", f)])
            meta.append((dl, f, "wild" if m < 6 else "applicable" if m < 8 else "made"))
    for g, u, (dl, f, kind) in zip(run_packed(ctx.drv(), units), units, meta):
        out.add("reads")
        fb = {"delta.drpm": f}
        c = crashed(g, len(u))
        if c:
            out.bad("crash: " + c[0], kind + "\n" + c[1], fb, u)
            continue
        if dl is None:
            if g["ops"][0]["rc"] != 0:
                out.bad("make failed", str(g["ops"][0]), fb, u)
                continue
            dl = D.Delta.decode(open(f, "rb").read(), ctx.helper)
        what = "%s %s v%d %s seq=%d copies=%d/%d adj=%d" % (kind, "rpm-only" if dl.rpmonly else "standard", dl.version, dl.comp,
                                                            len(dl.sequence), len(dl.ext_copies), len(dl.int_copies), len(dl.offadj))
        o = g["ops"][-1]
        if o["rc"] != 0:
            out.bad("well-formed delta refused with %d" % o["rc"], what, fb, u)
            continue
        if o.get("destroy"):
            out.bad("destroy", what, fb, u)
        out.add("tag_getter_pairs", 22 * 5)
        out.add("read_" + kind)
        for key, text in compare(o["tags"], expected(dl, os.fsencode(f).decode("latin-1"))):
            out.bad(key, what + "\n" + text, fb, u)
        out.sig((kind, dl.rpmonly, dl.version, dl.comp, dl.tgt_comp, len(dl.sequence), len(dl.leadsig), len(dl.ext_copies), len(dl.offadj), dl.ext_len))
        out.sample(what)


def main():
    c = Check("P05", "exploration", "distinct = (origin, type, version, compressions, sequence, lead/signature, copy and adjustment counts, "
              "external length) of a delta whose every tag was read through every getter",
              ["the independent encoder/decoder (lib/deltafmt.py) is the format"])
    c.build(["asan"])
    n = 3000 if c.thorough() else 110
    c.map(unit, n)
    c.finish(c.total.counts.get("reads", 0), {"read_wild": n * 36, "read_applicable": n * 12, "read_made": n * 12})
