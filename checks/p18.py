"""P18: patch lists leave out exactly the unpatched files, and the delta still applies."""
import copy, hashlib, os
import deltafmt as D
import gen as G
import hostile
import rpml
import rpmgen as R
import work
from run import Check, crashed, run_packed
from p01 import write
from p06 import audit

ARGS = 2
UNPATCHED = 1 << 10


def evr_of(parts, name):
    return parts.nevr().encode("latin-1")[len(name) + 1:]


class Lists:
    """A print and a patch list for a package, as bytes and as what they say."""


def make_lists(r, ctx, rpm, parts, fl, mark=True):
    L = Lists()
    nm = rpm.name
    evr = evr_of(parts, nm)
    keys = [(f.key, f) for f in fl]
    # the patch list: digests of the files the patch holds, some missing, some other than the package's, some without any
    ents, pm = [], []

    def entry(k, f, md5):
        mode = f.mode if r.random() < 0.95 else 0
        size = f.size if f.isreg else len(f.linkto) if f.islnk else 0
        size = min(size, 0xffffffff)
        e = rpml.Entry(k, mode, size, md5, f.rdev & 0xffffffff)
        if mode == 0 or not (f.isreg or f.islnk) or size == 0:
            md5 = b"\0" * 16
        return e, (k, False, md5)

    def md5_of(f):
        try:
            m = bytes.fromhex(f.digest.decode())
        except (ValueError, UnicodeDecodeError):
            m = b""
        return m if len(m) == 16 else r.choice([b"\0" * 16, r.randbytes(16), (m + b"\0" * 16)[:16]])
    for k, f in keys:
        t = r.random()
        if t < 0.2:
            continue
        m = md5_of(f)
        if t < 0.45:
            m = r.choice([r.randbytes(16), m[:15] + bytes([m[15] ^ 1]), bytes([m[0] ^ 0x80]) + m[1:]])
        e, y = entry(k, f, m)
        ents.append(e)
        pm.append(y)
        if r.random() < 0.1:                              # named twice: the first one counts
            e, y = entry(k, f, r.choice([r.randbytes(16), md5_of(f)]))
            ents.append(e)
            pm.append(y)
    if r.random() < 0.5:
        z = list(zip(ents, pm))
        r.shuffle(z)
        ents, pm = [a for a, _ in z], [b for _, b in z]
    extra = [b"not/there", b"usr", b"zz" * 100]
    pn = [k for k, f in keys if r.random() < 0.05] + ([r.choice(extra)] if r.random() < 0.1 else [])
    L.patch = rpml.build(r, nm, evr, pn, ents)
    L.patch_says = [(k, True, b"\0" * 16) for k in pn] + pm
    # the print: which files no patch has replaced
    marked = [k for k, f in keys if r.random() < r.choice([0.5, 0.9])] if mark else []
    if mark and r.random() < 0.3:
        marked += r.choice([[b"./" + k for k, f in keys], extra, marked, [k + b"x" for k in marked], [k[:-1] for k in marked if len(k) > 1], [b"/" + k for k, f in keys]])
    r.shuffle(marked)
    if r.random() < 0.25 and all(len(f.digest) in (0, 32) for f in fl):
        o = copy.deepcopy(rpm)
        # the package itself with the files flagged
        fs = [0] * len(fl)
        for i, f in enumerate(fl):
            fs[i] = f.flags | (UNPATCHED if f.key in marked else 0)
        o.extra = dict(o.extra or {})
        if fs:
            o.extra[R.T["FILEFLAGS"]] = (R.INT32, fs)
        L.print = o.build(ctx.helper)
        L.print_says = [(f.key, bool(x & UNPATCHED)) for f, x in zip(fl, fs)]
        L.kind = "package"
    else:
        es, ps = [], []
        for k, f in keys:
            if r.random() < 0.9:
                e, y = entry(k, f, md5_of(f))
                es.append(e)
                ps.append((k, False))
        L.print = rpml.build(r, nm, evr, marked, es)
        L.print_says = [(k, True) for k in marked] + ps
        L.kind = "list"
    L.name, L.evr = nm, evr
    return L


def unpatched(L, fl):
    """The files the lists say to leave out."""
    out = set()
    for f in fl:
        if not f.isreg:
            continue
        m = next((u for k, u in L.print_says if k == f.key), False)
        if not m:
            continue
        d = next((md for k, _, md in L.patch_says if k == f.key), None)
        if d is None or d.hex().encode() != f.digest:
            out.add(f.key)
    return out


def unit(ctx, r, i, out):
    d = ctx.fresh()
    units, meta = [], []
    for k in range(4):
        ident = r.random() < 0.1
        p = G.pair(r, ctx.helper, maxlen=r.choice([300, 3000]), nfiles=r.choice([1, 3, 6, 12, 30]), digest=r.choice(["md5", "md5", "md5", "sha256"]),
                   source=False if r.random() < 0.9 else None)
        if ident:
            G.identity(p, ctx.helper)
        parts = R.RpmParts(p.oldb)
        fl = D.file_list(parts)
        a, b = os.path.join(d, "%d.old.rpm" % k), os.path.join(d, "%d.new.rpm" % k)
        write(a, p.oldb)
        write(b, p.newb)
        for m in range(7):
            f, g, x, y, z = (os.path.join(d, "%d.%d.%s" % (k, m, n)) for n in ("print", "patch", "drpm", "plain", "rpm"))
            L = make_lists(r, ctx, p.old, parts, fl, mark=m != 0)
            exp, how, cut = "ok", "", None
            pr, pl = L.print, L.patch
            if m == 1:                                     # lists of another package
                w, q = r.randrange(4), rpml.build
                nm, evr = L.name, L.evr
                if w == 0:
                    nm = nm + b"x" if r.random() < 0.5 else nm[:-1] + bytes([nm[-1] ^ 1])
                elif w == 1:
                    evr = evr + b"1"
                elif w == 2:
                    evr = b"9:" + evr
                else:
                    evr = evr[:-1]
                other = rpml.build(r, nm, evr, [], [])
                if r.random() < 0.5:
                    pl = other
                else:
                    pr = other
                exp, how = "args", "lists of %r-%r" % (nm, evr)
            elif m in (2, 3):                              # malformed lists
                which = r.random() < 0.5 and L.kind == "list"
                s = pr if which else pl
                t = r.randrange(5)
                if t < 3:
                    c = r.choice([r.randrange(len(s)), len(s) - 1, len(s) - 2, r.randrange(min(12, len(s)))])
                    s, how = s[:c], "cut to %d of %d" % (c, len(s))
                elif t == 3:
                    j = r.randrange(4)
                    s, how = s[:j] + bytes([s[j] ^ (1 << r.randrange(8))]) + s[j + 1:], "magic"
                else:
                    h = 4 + 1 + len(L.name) + 1 + len(L.evr) + 1 + len(b"host") + 4
                    s, how = s[:h] + b"\0\0" + bytes([r.randrange(1, 256), 3]) + b"abc" + s[h + 2:], "first name shares a prefix"
                if which:
                    pr, how = s, "print " + how
                else:
                    pl, how = s, "patch " + how
                exp = "error"
            write(f, pr)
            write(g, pl)
            spec, o = G.options(r, p.new.comp, rpmonly=r.random() < 0.12)
            if spec == "NULL":
                spec = "init"
            o["comp_rpm"] = "comp=" not in spec
            if not o["comp_rpm"] and o["comp"] in ("xz", "lzma", "zstd") and r.random() < 0.7:
                continue
            if o["rpmonly"]:
                exp = "same"
            elif m == 0 and exp == "ok":
                exp = "same"
            ops = [("make", a, "-" if ident else b, x, spec + ",patches=%s:%s" % (f, g) + (",copyto" if r.random() < 0.2 else "")), ("apply", a, x, z),
                   ("make", a, "-" if ident else b, y, spec)]
            units.append(ops)
            meta.append((p, parts, fl, ident, o, L, exp, how, x, y, z, {"old.rpm": p.oldb, "new.rpm": p.newb, "print": pr, "patch": pl}))
    for g, u, (p, parts, fl, ident, o, L, exp, how, x, y, z, files) in zip(run_packed(ctx.drv(), units, per=7), units, meta):
        out.add("makes")
        what = "files=%d print=%s %s %s" % (len(fl), L.kind, how, u[0][4])
        c = crashed(g, 3)
        if c:
            out.bad(c[0], what + "\n" + c[1], files, u)
            continue
        rc, rca, rcy = (q["rc"] for q in g["ops"])
        if rcy:
            out.bad("make without lists failed with %d" % rcy, what, files, u)
            continue
        if exp == "args":
            out.add("other_package")
            if rc != ARGS:
                out.bad("lists of another package: returned %d" % rc, what, files, u)
            continue
        if exp == "error":
            out.add("malformed_lists")
            if rc == 0:
                out.bad("malformed list accepted", what, files, u)
            continue
        v1 = o["version"] == 1                             # version 1 does not record the compression level of the payload
        if rc or (rca and not v1):
            out.bad("make with lists returned %d, apply %d" % (rc, rca), what, files, u)
            continue
        got, plain, new = work.read(x), work.read(y), work.read(z)
        if new != p.newb and not v1:
            out.bad("the delta does not reproduce the new package", what, files, u)
        if exp == "same":
            out.add("nothing_marked")
            if got != plain:
                out.bad("lists that mark nothing change the delta" if not o["rpmonly"] else "lists change an rpm-only delta", what, files, u)
            if o["rpmonly"]:
                continue
        left = unpatched(L, fl) if exp == "ok" else set()
        cp = D.uncompressed(parts, ctx.helper)
        all_kept, kept = D.kept_files(parts, cp)[1], D.kept_files(parts, cp, left)[1]
        out.add("files_left_out_by_lists", len(all_kept) - len(kept))
        out.add("files_kept", len(kept))
        out.add("lists_with_effect", len(kept) < len(all_kept))
        p.delta = None
        for key, text in audit(p, ident, o, got, ctx.helper, unpatched=left):
            out.bad(key, what + "\nto be left out: %s\n" % sorted(left)[:20] + text, files, u)
        out.sig((L.kind, len(kept), len(all_kept), o["version"], p.old.digest))
        out.sample(what.replace(os.path.dirname(x), "") + " -> keeps %d of %d" % (len(kept), len(all_kept)))


def cuts(ctx, r, i, out):
    """Every strict prefix of a print and of a patch list is refused."""
    d = ctx.fresh()
    p = G.pair(r, ctx.helper, maxlen=200, nfiles=r.choice([1, 2, 3]), digest="md5", source=False)
    parts = R.RpmParts(p.oldb)
    a, b, x = os.path.join(d, "o.rpm"), os.path.join(d, "n.rpm"), os.path.join(d, "x")
    write(a, p.oldb)
    write(b, p.newb)
    while True:
        L = make_lists(r, ctx, p.old, parts, D.file_list(parts))
        if L.kind == "list":
            break
    f, g = os.path.join(d, "print"), os.path.join(d, "patch")
    write(f, L.print)
    write(g, L.patch)
    units, lab = [], []
    for w, s in (("print", L.print), ("patch", L.patch)):
        for n in range(min(len(s), 700)):
            c = os.path.join(d, "%s.%d" % (w, n))
            write(c, s[:n])
            units.append([("make", a, b, x, "init,comp=1:1,noaddblk,patches=%s:%s" % ((c, g) if w == "print" else (f, c)))])
            lab.append("%s cut to %d of %d" % (w, n, len(s)))
    for u, l, q in zip(units, lab, run_packed(ctx.drv("asan"), units, per=100)):
        out.add("prefixes")
        c = crashed(q, 1)
        if c or q["ops"][0]["rc"] == 0:
            out.bad(c[0] if c else "cut list accepted", l, {"print": L.print, "patch": L.patch, "old.rpm": p.oldb, "new.rpm": p.newb}, u)


def both(ctx, r, i, out):
    (cuts if i % 12 == 0 else unit)(ctx, r, i, out)


def main():
    c = Check("P18", "exploration", "distinct = (kind of print, files kept, files kept without the lists, version, digest algorithm)", [])
    c.build(["asan"])
    n = 3000 if c.thorough() else 130
    c.map(both, n)
    t = c.total.counts
    c.finish(t.get("makes", 0) + t.get("prefixes", 0), {"makes": n * 15, "lists_with_effect": n, "files_left_out_by_lists": n * 2, "nothing_marked": n,
             "malformed_lists": n, "other_package": n, "prefixes": n * 5})


if __name__ == "__main__":
    main()
