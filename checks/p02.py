"""P02: apply succeeds only with the target recorded in the delta; a wrong old package is refused."""
import copy, hashlib, os
import deltafmt as D
import dgen
import gen as G
import malform
import rpmgen as R
from run import Check, crashed, made, run_packed
from p01 import write
from p04 import seq_valid

MISMATCH = 9


def alter(r, dl, ob, helper):
    """(what, bytes): the delta with one field, or one byte, changed; the recorded digest may be changed too."""
    fs = malform.fields(dl)
    ix = {n: i for i, (n, b) in enumerate(fs)}
    k = r.choice(["md5", "md5", "byte", "stream", "stream", "leadsig", "int_data", "copies", "level", "hdrlen", "header", "sequence",
                  "nevr", "nevr", "seqbyte", "sigmd5", "add", "size"])

    def enc():
        return dl.encode(helper, b"".join(b for _, b in fs))

    def flip(name, i=None):
        b = fs[ix[name]][1]
        i = r.randrange(len(b)) if i is None else i
        fs[ix[name]][1] = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        return i
    if k == "md5":
        if not any(dl.tgt_md5):
            return None
        return "md5 byte %d" % flip("md5", r.randrange(16)), enc()
    if k == "byte":
        i = r.randrange(len(ob))
        return "file byte", ob[:i] + bytes([ob[i] ^ (1 << r.randrange(8))]) + ob[i + 1:]
    if k == "stream":
        n = r.choice([n for n, b in fs if b])
        flip(n)
        return "stream field " + n, enc()
    if k == "sigmd5":
        i = dl.leadsig.find(hashlib.md5(dl.expected[len(dl.leadsig):]).digest())
        if i < 0:
            return None
        return "signature md5 byte %d" % (flip("leadsig", i + r.randrange(16)) - i), enc()
    if k in ("leadsig", "int_data", "sequence", "nevr") or k == "seqbyte":
        n = {"sequence": "seq", "seqbyte": "seq"}.get(k, k)
        if k == "nevr":
            m = r.randrange(4)
            s = dl.src_nevr
            s = s + "0" if m == 0 else s[:-1] if m == 1 else s[1:] if m == 2 else s[:-1] + chr(ord(s[-1]) ^ 1)
            fs[ix["nevr"]][1] = s.encode("latin-1") + b"\0"
            fs[ix["nevr_len"]][1] = malform.be(len(s) + 1)
            return "source nevr", enc()
        if not fs[ix[n]][1]:
            return None
        i = flip(n, r.randrange(16) if k == "seqbyte" else None)
        return "%s byte%s" % (n, " %d" % i if k == "seqbyte" else ""), enc()
    if k == "copies":
        if not dl.ext_copies:
            return None
        i = r.randrange(len(dl.ext_copies))
        e = list(dl.ext_copies)
        a, b = e[i]
        e[i] = (a + r.choice([-1, 1]), b) if r.random() < 0.5 else (a, max(0, b + r.choice([-1, 1])))
        fs[ix["ext"]][1] = b"".join(malform.be(D.to_sm(a)) for a, _ in e) + b"".join(malform.be(b) for _, b in e)
        return "external copy", enc()
    if k == "level" and dl.version > 1:
        fs[ix["comp"]][1] = malform.be(r.choice([0, 2, 5, 6, 8, 9, dl.tgt_algo_code or 1]) | r.randrange(0, 10) << 8)
        return "target compression", enc()
    if k == "hdrlen" and dl.version == 3:
        fs[ix["hdr_len"]][1] = malform.be(max(0, dl.tgt_header_len + r.choice([-1, 1, 5])))
        return "target header length", enc()
    if k == "size" and dl.version > 1:
        flip("size")
        return "target size", enc()
    if k == "header" and not dl.rpmonly:
        x = copy.copy(dl)
        h = bytearray(dl.header)
        i = len(h) - 1 - r.randrange(min(60, len(h) // 3))
        h[i] ^= 1 << r.randrange(8)
        x.header = bytes(h)
        return "target header byte", x.encode(helper)
    if k == "add" and dl.rpmonly and dl.add_data:
        i = ob.find(dl.add_data)
        if i < 0:
            return None
        i += r.randrange(len(dl.add_data))
        return "add block byte", ob[:i] + bytes([ob[i] ^ (1 << r.randrange(8))]) + ob[i + 1:]
    return None


def other_old(r, p, helper):
    """(what, bytes, Rpm): a package that is not p.old."""
    o = copy.deepcopy(p.old)
    k = r.choice(["version", "release", "epoch", "name", "content", "content", "content", "drop", "rename", "mode", "payload", "summary",
                  "raw", "raw", "new", "sigmd5", "nosig", "color", "linkto", "swap"])
    reg = [f for f in o.files if f.isreg() and f.in_header and f.data]
    if k == "version":
        o.version += r.choice([b"1", b".", b"a"]) if r.random() < 0.5 else b""
        if o.version == p.old.version:
            o.version = o.version[:-1] or b"77"
    elif k == "release":
        o.release += b"0"
    elif k == "epoch":
        o.epoch = 5 if o.epoch != 5 else 6
    elif k == "name":
        o.name = o.name[:-1] + b"q" if r.random() < 0.5 else o.name + b"0"
    elif k == "content" and reg:
        for f in r.sample(reg, 1 if r.random() < 0.7 else len(reg)):
            i = r.randrange(len(f.data))
            f.data = f.data[:i] + bytes([f.data[i] ^ 1]) + f.data[i + 1:]
    elif k == "drop" and o.files:
        f = r.choice(o.files)
        o.files = [x for x in o.files if x is not f]
        o.order = [x for x in o.order if x is not f]
    elif k == "rename" and o.files:
        f = r.choice(o.files)
        f.name += b"z"
        f.cpio_name += b"z"
    elif k == "mode" and reg:
        r.choice(reg).mode ^= 0o111
    elif k == "payload" and reg:
        f = r.choice(reg)
        cp = R.build_cpio(o.files, o.order)
        i = cp.find(f.data)
        o.cpio = cp[:i] + bytes([cp[i] ^ 4]) + cp[i + 1:] if i >= 0 else cp
        o2 = p.old
        b = o.build(helper)
        if r.random() < 0.5:   # keep the old signature: a payload swapped under it
            a = R.RpmParts(p.oldb)
            b = p.oldb[:a.hdr_start] + b[R.RpmParts(b).hdr_start:]
        return k, b
    elif k == "summary":
        o.summary += b"!"
    elif k == "raw":
        i = r.randrange(len(p.oldb))
        return k, p.oldb[:i] + bytes([p.oldb[i] ^ (1 << r.randrange(8))]) + p.oldb[i + 1:]
    elif k == "new":
        return k, p.newb
    elif k == "sigmd5":
        a = R.RpmParts(p.oldb)
        m = hashlib.md5(a.header + a.payload).digest()
        i = p.oldb.find(m) + r.randrange(16)
        return k, p.oldb[:i] + bytes([p.oldb[i] ^ (1 << r.randrange(8))]) + p.oldb[i + 1:]
    elif k == "nosig":
        o.sig_md5 = False
    elif k == "color" and o.files:
        r.choice(o.files).color ^= 2
    elif k == "linkto":
        l = [f for f in o.files if f.islnk()]
        if l:
            r.choice(l).linkto += b"y"
    elif k == "swap":
        l = [f for f in o.files if f.in_header]
        if len(l) > 1:
            a, b = r.sample(l, 2)
            i, j = o.files.index(a), o.files.index(b)
            o.files[i], o.files[j] = o.files[j], o.files[i]
    return k, o.build(helper)


def unit(ctx, r, i, out):
    d = ctx.fresh()
    res = os.path.join(d, "x.out")
    # deltas made by the library first
    pairs, groups = [], []
    for k in range(3):
        p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000, 9000]), nfiles=r.choice([None, 3, 6]))
        a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
        spec, o = G.options(r, p.new.comp)
        if o["version"] == 1:
            p.new.level = D.DEFLEVEL[p.new.comp]
            p.newb = p.new.build(ctx.helper)
        write(a, p.oldb)
        write(b, p.newb)
        pairs.append((p, a))
        if r.random() < 0.85:
            groups.append([("make", a, b, os.path.join(d, "%d.0.drpm" % k), spec)])
        else:
            groups.append([("make", a, "-", os.path.join(d, "%d.0.drpm" % k), "init,type=1")])
            p.ident = True
    for g, (p, a) in zip(run_packed(ctx.drv(), groups), pairs):
        c = crashed(g, 1)
        if c or g["ops"][0]["rc"]:
            out.add("make_failed")
            p.made = False
        else:
            p.made = True
    units, want = [], []

    def add(oldp, dp, must, what, dl, exp, files):
        units.append([("apply", oldp, dp, "%s%d" % (res, len(units)))])
        want.append((must, what, dl, exp, files))
    for k, (p, a) in enumerate(pairs):
        old = R.RpmParts(p.oldb)
        dls = []
        if p.made:
            f = os.path.join(d, "%d.0.drpm" % k)
            ob = open(f, "rb").read()
            dl = made(ctx, f)
            dls.append((dl, ob, p.oldb if getattr(p, "ident", False) else p.newb, f))
        for m in (1, 2):
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, nodiff=r.random() < 0.1)
            f = os.path.join(d, "%d.%d.drpm" % (k, m))
            write(f, ob)
            dls.append((dl, ob, exp, f))
        for dl, ob, exp, f in dls:
            dl.expected = exp
            kind = "rpm-only" if dl.rpmonly else "standard"
            out.add("controls", 1)
            add(a, f, "control", kind + "/intact", dl, exp, {"delta.drpm": ob, "old.rpm": p.oldb})
            for q in range(7):
                al = alter(r, dl, ob, ctx.helper)
                if al is None:
                    continue
                g = os.path.join(d, "%d.%d.alt" % (len(units), q))
                write(g, al[1])
                try:
                    dec = D.Delta.decode(al[1], ctx.helper)
                except Exception:
                    dec = None
                must = set()
                if dec is not None and dec.src_nevr != old.nevr():
                    must = {"refuse", "mismatch"} if al[0] == "source nevr" else {"refuse"}
                add(a, g, must, "%s/delta: %s" % (kind, al[0]), dec, None, {"delta.drpm": al[1], "old.rpm": p.oldb})
            for q in range(4):
                how, b = other_old(r, p, ctx.helper)
                if b == p.oldb:
                    continue
                g = os.path.join(d, "%d.%d.old2.rpm" % (len(units), q))
                write(g, b)
                must = set()
                try:
                    w = R.RpmParts(b)
                    fl = D.file_list(w)
                    nv = w.nevr()
                    if how != "raw":
                        sm = w.sig.get(R.SIG_MD5)
                        if nv != dl.src_nevr:
                            must = {"refuse", "mismatch"} if not (dl.rpmonly and sm is None) else {"refuse"}
                        elif dl.rpmonly and sm is None:
                            must = {"refuse"}
                        elif dl.rpmonly and sm[3][:16] != dl.sequence:
                            must = {"refuse", "mismatch"}
                        elif not dl.rpmonly and seq_valid(fl, dl.sequence, D.digest_algo(w)) is None:
                            must = {"refuse"}
                except Exception:
                    if how != "raw":
                        raise
                add(g, f, must, "%s/old package: %s" % (kind, how), dl, None, {"delta.drpm": ob, "old.rpm": b})
    done = {}
    for g, u, (must, what, dl, exp, files) in zip(run_packed(ctx.drv(), units, per=12), units, want):
        out.add("applications")
        c = crashed(g, 1)
        if c:
            out.bad("crash: " + c[0], what + "\n" + c[1], files, u)
            continue
        rc = g["ops"][0]["rc"]
        tag = what.split(" byte ")[0]
        got = b""
        if rc == 0:
            with open(u[0][3], "rb") as fh:
                got = fh.read()
        if os.path.exists(u[0][3]):
            os.unlink(u[0][3])
        if must == "control":
            if rc == 0:
                out.add("controls_accepted")
            else:
                out.bad("refused with %d: %s" % (rc, what), what, files, u)
            if rc == 0 and exp is not None and got != exp:
                out.bad("intact: wrong output", what, files, u)
            must = set()
        if rc == 0:
            out.add("successes")
            if "refuse" in must:
                out.bad("accepted: " + tag, what, files, u)
                continue
            if dl is None:
                out.add("success_undecodable")
                continue
            if any(dl.tgt_md5):
                out.add("success_full_md5")
                if hashlib.md5(got).digest() != dl.tgt_md5:
                    out.bad("success with another output: " + tag, what, files, u)
                    continue
            else:
                try:
                    ls = R.RpmParts(dl.leadsig + D.patched_header(R.RpmParts(files["old.rpm"]).header, b"cpio")).sig
                except Exception:
                    continue
                if R.SIG_MD5 in ls:
                    out.add("success_signature_md5")
                    if hashlib.md5(got[len(dl.leadsig):]).digest() != ls[R.SIG_MD5][3][:16]:
                        out.bad("success with another header and payload: " + tag, what, files, u)
                        continue
                else:
                    out.add("success_nothing_recorded")
                    continue
        else:
            out.add("refused_%d" % rc)
            if "mismatch" in must and rc != MISMATCH:
                out.bad("refused with %d instead of 'file changed': %s" % (rc, tag), what, files, u)
                continue
            if "refuse" in must:
                out.add("wrong_package_refused")
        out.sig((what, rc))
        out.sample("%s -> %d" % (what, rc))


def main():
    c = Check("P02", "exploration", "distinct = (type, alteration of the delta or old package, result)",
              ["recorded digests are read from the delta by the independent decoder"])
    c.build(["asan"])
    n = 2500 if c.thorough() else 130
    c.map(unit, n)
    t = c.total.counts
    c.finish(t.get("applications", 0), {"applications": n * 60, "success_full_md5": n * 5, "success_signature_md5": n // 2,
                                        "wrong_package_refused": n * 5, "refused_9": n * 10})
