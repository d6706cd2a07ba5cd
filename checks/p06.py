"""P06: every produced delta is well-formed, independently decodable and truthful (offline checker over the produced files)."""
import hashlib, os
import deltafmt as D
import gen as G
import rpmgen as R
from run import Check, crashed, run_packed
from p01 import write


def audit(p, ident, o, delta_bytes, helper, unpatched=frozenset(), seqfile=None):
    """Yields (key, text) for everything the delta says that is not so."""
    old, new = R.RpmParts(p.oldb), R.RpmParts(p.newb)
    try:
        d = D.Delta.decode(delta_bytes, helper)
    except D.FormatError as e:
        yield "not decodable", str(e)
        return
    nod = ident and o["rpmonly"]
    exp = dict(rpmonly=o["rpmonly"], version=o["version"], src_nevr=old.nevr(), tgt_nevr=new.nevr(),
               tgt_md5=hashlib.md5(p.newb).digest(), leadsig=new.leadsig,
               comp=("gzip" if nod and o["comp_rpm"] else o["comp"]))
    if o["version"] >= 2:
        exp["tgt_size"] = len(p.newb)
        exp["tgt_comp"] = "none" if nod else (new.comp() or "none")
        if not nod:
            exp["tgt_level"] = int(new.level() or 0)
        exp["tgt_comp_param"] = b""
    if o["version"] >= 3:
        exp["tgt_header_len"] = len(new.header) if o["rpmonly"] else 0
    if not nod:
        exp["payload_fmt_off"] = D.payload_fmt_off(new.header)
    if not o["rpmonly"]:
        exp["lead"] = new.data[:96]
        exp["header"] = D.patched_header(new.header, b"drpm")
    for k, v in exp.items():
        if getattr(d, k) != v:
            yield "field %s untrue" % k, "%s = %r, expected %r" % (k, str(getattr(d, k))[:300], str(v)[:300])
    if d.comp == "bzip2" and o.get("comp_level") is not None and not nod and not o["rpmonly"]:
        lv = o["comp_level"] or 9
        if d.parts.payload[3:4] != b"%d" % lv:
            yield "delta level", "bzip2 block size %r, level %d asked" % (d.parts.payload[3:4], lv)
    if o["addblk"] is None and d.add_data:
        yield "add block although forbidden", "%d bytes" % len(d.add_data)
    if d.add_data:
        al = R.decompress(helper, d.add_data)[0]
        if al != o["addblk"]:
            yield "add block compression", "%s, asked for %s" % (al, o["addblk"])
        if al == "bzip2" and d.add_data[3:4] != b"%d" % (o.get("addblk_level") or 9):
            yield "add block level", "bzip2 block size %r" % d.add_data[3:4]
    ext, fl, info = D.ext_data(old, o["rpmonly"], helper, unpatched)
    if o["rpmonly"]:
        if d.sequence != hashlib.md5(old.header + old.payload).digest():
            yield "sequence untrue", d.sequence.hex()
    else:
        kept, offs = info
        idx = [k[0] for k in kept]
        try:
            got = D.seq_decode(d.sequence)
        except D.FormatError as e:
            yield "sequence malformed", str(e)
            got = idx
        if got != idx:
            yield "sequence names other files", "%s, expected %s" % (got[:50], idx[:50])
        if d.sequence[:16] != D.seq_md5(fl, idx, D.digest_algo(old)):
            yield "sequence md5 untrue", d.sequence[:16].hex()
        if o["version"] >= 3:
            e = D.offadj_ok(d.offadj, offs)
            if e:
                yield "offset adjustment untrue", e
        elif d.offadj:
            yield "offset adjustment in an old version", ""
    if nod:
        if d.int_copies or d.ext_copies or d.int_data:
            yield "identity rpm-only delta with copies", ""
    else:
        if d.ext_len != len(ext):
            yield "external length untrue", "%d, expected %d" % (d.ext_len, len(ext))
        want = (new.header if o["rpmonly"] else b"") + D.uncompressed(new, helper)
        try:
            got = d.new_data(ext, helper)
        except D.FormatError as e:
            yield "copies malformed", str(e)
            return
        if got != want:
            n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            yield "decoded data differs", "at byte %d (lengths %d, %d)" % (n, len(got), len(want))
        if d.used["ext"] != len(d.ext_copies) or d.used["int"] != len(d.int_data):
            yield "unused copies or internal data", str(d.used)
        if d.used["addlen"] is not None and d.used["addlen"] != d.used["add"]:
            yield "add block length", str(d.used)
    if seqfile is not None:
        w = ("%s-%s\n" % (old.nevr(), d.sequence.hex())).encode("latin-1")
        if seqfile != w:
            yield "sequence file untrue", "%r, expected %r" % (seqfile[:200], w[:200])
    p.delta = d


def unit(ctx, r, i, out):
    d = ctx.fresh()
    groups, meta = [], []
    for k in range(8):
        ident = r.random() < 0.15
        if k == 0 and i % 65 == 3:
            p = G.many(r, ctx.helper, 33500 if ctx.tier != "quick" and i % 130 == 3 else 4700)
            out.add("pairs_of_thousands_of_files")
        else:
            p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000, 12000, 40000]), nfiles=60 if r.random() < 0.05 else None)
        if ident:
            G.identity(p, ctx.helper)
        spec, o = G.options(r, p.new.comp)
        o["comp_rpm"] = "comp=" not in spec
        if r.random() < 0.15 and "comp=" in spec:
            spec += ",comprpm"
            o["comp"], o["comp_rpm"], o["comp_level"] = p.new.comp, True, None
        a, b, dl, sq = (os.path.join(d, "%d.%s" % (k, x)) for x in ("old.rpm", "new.rpm", "drpm", "seq"))
        write(a, p.oldb)
        write(b, p.newb)
        want_seq = spec != "NULL" and r.random() < 0.5
        if want_seq:
            spec += ",seqfile=" + sq
        groups.append([("make", a, "-" if ident else b, dl, spec)])
        meta.append((p, spec, o, ident, a, b, dl, sq if want_seq else None))
    res = run_packed(ctx.drv(), groups)
    for g, grp, (p, spec, o, ident, a, b, dl, sq) in zip(res, groups, meta):
        out.add("makes")
        what = "old=%s new=%s.%d files=%d opts=%s%s" % (p.old.comp, p.new.comp, p.new.level, len(p.new.files), spec,
                                                       " identity" if ident else "")
        fl = {"old.rpm": p.oldb, "new.rpm": p.newb, "delta.drpm": dl}
        c = crashed(g, 1)
        if c:
            out.bad("crash: " + c[0], what + "\n" + c[1], fl, grp)
            continue
        if g["ops"][0]["rc"] != 0:
            out.bad("make failed with %d" % g["ops"][0]["rc"], what, fl, grp)
            continue
        seq = None
        if sq:
            try:
                seq = open(sq, "rb").read()
            except OSError:
                out.bad("sequence file missing", what, fl, grp)
        for key, text in audit(p, ident, o, open(dl, "rb").read(), ctx.helper, seqfile=seq):
            out.bad(key, what + "\n" + text, fl, grp)
        dd = getattr(p, "delta", None)
        if dd is None:
            continue
        out.add("deltas_decoded")
        out.add("ext_copies_interpreted", len(dd.ext_copies))
        out.add("int_copies_interpreted", len(dd.int_copies))
        out.add("offadj_elements_checked", len(dd.offadj))
        out.add("add_blocks_checked", 1 if dd.add_data else 0)
        out.add("seqfiles_checked", 1 if sq else 0)
        out.sig("%s|%s|%s|%d|%d" % (spec.replace(d, ""), p.old.comp, p.new.comp, len(dd.ext_copies), len(dd.sequence)))
        out.sample(what + " -> %d ext, %d int copies, seq %d" % (len(dd.ext_copies), len(dd.int_copies), len(dd.sequence)))


def main():
    c = Check("P06", "exploration", "distinct = (options, payload compressions, number of external copies, sequence length) of a "
              "produced delta decoded and interpreted by the independent model",
              ["the model (lib/deltafmt.py) is the delta format; it agrees with the makedeltarpm outputs shipped with the tests"])
    c.build(["asan"])
    n = 6000 if c.thorough() else 400
    c.map(unit, n)
    c.finish(c.total.counts.get("makes", 0), {"makes": n * 8, "deltas_decoded": n * 6, "seqfiles_checked": 50})
