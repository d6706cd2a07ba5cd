"""A workload of calls of every kind over one set of generated packages, deltas, installed files and patch lists, each with what
it does when nothing interferes (return code and output contents), for the checks that interfere."""
import copy, hashlib, os, re, shutil
import deltafmt as D
import dgen
import fslib
import gen as G
import hostile
import malform
import prelink
import rpml
import rpmgen as R


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


class Call:
    """op: fields of a drv line; outs: output files it names; label: what it is; files: inputs to keep with a report."""

    def __init__(self, op, label, outs=(), files=None):
        self.op, self.label, self.outs, self.files = [str(x) for x in op], label, list(outs), dict(files or {})
        self.rc = self.body = self.data = None

    def kind(self):
        return self.label.split("/")[0]

    def with_outs(self, suffix):
        """The same call on outputs of other names."""
        op = self.op
        if self.outs:
            pat = re.compile("|".join(re.escape(o) for o in sorted(self.outs, key=len, reverse=True)))
            op = [pat.sub(lambda m: m.group(0) + suffix, x) for x in op]
        c = Call(op, self.label, [o + suffix for o in self.outs], self.files)
        c.rc, c.body, c.data = self.rc, self.body, self.data
        return c

    def outcome(self, o):
        """(rc, what else the driver printed, output contents) of an executed call; contents count only on success."""
        return o["rc"], (repr(o.get("tags")) if o["rc"] == 0 else repr(o.get("ptr_null"))), \
            tuple(hashlib.md5(b).hexdigest() if b is not None else None for b in map(read, self.outs)) if o["rc"] == 0 else None

    def clear(self):
        for o in self.outs:
            try:
                os.unlink(o)
            except OSError:
                pass


def patch_lists(r, rpm, parts):
    """(print list, patch list) of a package, well formed."""
    ents, names = [], []
    for f in rpm.files:
        n = f.name[1:] if f.name[:1] == b"/" else f.name
        names.append(n)
        ents.append(rpml.Entry(n, f.mode, len(f.data), hashlib.md5(f.data).digest(), f.rdev))
    nm, evr = rpm.name, parts.nevr().encode("latin-1")[len(rpm.name) + 1:]
    pl = rpml.build(r, nm, evr, [], [e for e in ents if r.random() < 0.9])
    pr = rpml.build(r, nm, evr, [n for n in names if r.random() < 0.5], ents)
    return pr, pl


class Work:
    def __init__(self, ctx, r, d, npairs=1, maxlen=1500, nfiles=None, failing=True, comps=None, big=False, tgt_none=True):
        """Builds the inputs in directory d (a scratch directory of this unit)."""
        self.ctx, self.r, self.d = ctx, r, d
        self.db = fslib.Db(d)
        self.calls, self.inputs, self.roots, heads = [], [], [], []
        comps = comps or (["gzip", "bzip2", "xz", "lzma", "zstd"] + (["none"] if tgt_none else []))
        for k in range(npairs):
            self.one(k, maxlen, nfiles or r.choice([2, 3, 5]), failing, comps, big, heads)
        self.db.add(heads)
        self.env = self.db.env
        if "unprelink" in ctx.exes and r.random() < 0.3:
            self.prelinked()

    def prelinked(self):
        """Some of the installed files were changed by prelink since."""
        n = 0
        for root in self.roots:
            for base, _, fn in os.walk(root):
                for x in sorted(fn):
                    q = os.path.join(base, x)
                    if os.path.isfile(q) and not os.path.islink(q) and self.r.random() < 0.7:
                        write(q, prelink.image(self.r, read(q)))
                        n += 1
        self.env = dict(self.env, DRPMV_PRELINK=self.ctx.exes["unprelink"], DRPMV_PLMODE="ok", DRPMV_PLLOG=os.path.join(self.d, "prelink.log"))
        return n

    def put(self, name, b):
        p = os.path.join(self.d, name)
        write(p, b)
        self.inputs.append(p)
        return p

    def add(self, op, label, outs=(), **files):
        self.calls.append(Call(op, label, outs, files))

    def one(self, k, maxlen, nfiles, failing, comps, big, heads):
        r, ctx, d = self.r, self.ctx, self.d
        root = os.path.join(d, "r%d" % k)
        p = fslib.pair(ctx, r, root, b"pkg%d" % k, source=False, maxlen=maxlen, nfiles=nfiles, comps=comps)
        self.pair, self.root = p, root
        self.roots.append(root)
        parts = R.RpmParts(p.oldb)
        heads.append(parts.header)
        a, b = self.put("%d.old.rpm" % k, p.oldb), self.put("%d.new.rpm" % k, p.newb)
        self.old, self.new = a, b
        pr, pl = patch_lists(r, p.old, parts)
        pr, pl = self.put("%d.print" % k, pr), self.put("%d.patch" % k, pl)
        o = lambda x: os.path.join(d, "%d.%s" % (k, x))
        cs = [0, 1, 2, 3, 4, 5, 6]
        lv = lambda c: r.choice([1, 2]) if c else 0
        c1, c2, c3, c4 = (r.choice(cs) for _ in range(4))
        inp = {"old.rpm": p.oldb, "new.rpm": p.newb}
        self.add(("make", a, b, o("m1"), "init,comp=%d:%d,addblk=%d:%d" % (c1, lv(c1), c2, lv(c2))), "make/standard", [o("m1")], **inp)
        self.add(("make", a, b, o("m2"), "init,type=1,comp=%d:%d,addblk=%d:%d" % (c3, lv(c3), c4, lv(c4))), "make/rpm-only", [o("m2")], **inp)
        self.add(("make", a, b, o("m3"), "init,version=%d,comp=1:1,noaddblk,seqfile=%s" % (r.choice([1, 2, 3]), o("m3.seq"))),
                 "make/sequence file", [o("m3"), o("m3.seq")], **inp)
        self.add(("make", a, b, o("m4"), "init,copyto,comp=1:1,patches=%s:%s" % (pr, pl)), "make/patches", [o("m4")], **inp)
        self.add(("make", a, "-", o("m5"), "init,comp=1:1,copy" if r.random() < 0.7 else "NULL"), "make/identity", [o("m5")], **inp)
        self.add(("make", b, "-", o("m6"), "init,type=1,selfcopy"), "make/rpm-only identity", [o("m6")], **inp)
        dls = []
        for m in range(3):
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, big, rpmonly=m == 2, comps=[["gzip"], ["xz", "zstd", "lzma"], ["bzip2", "lzip", "none"]][m])
            f = self.put("%d.%d.drpm" % (k, m), ob)
            dls.append((dl, ob, f, exp))
            what = "rpm-only" if dl.rpmonly else "standard"
            inp = {"old.rpm": p.oldb, "delta.drpm": ob}
            self.add(("read", f), "read/" + what, **inp)
            self.add(("apply", a, f, o("a%d" % m)), "apply/" + what, [o("a%d" % m)], **inp)
            self.add(("check", f, m % 2 + 1), "check/" + what, **inp)
            if m < 2:
                self.add(("apply", "-", f, o("f%d" % m)), "apply/installed files", [o("f%d" % m)], **inp)
        while True:                                    # what records nothing cannot tell a package cut short
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, nodiff=True)
            if dl.md5_kind[:4] != "none":
                break
        f = self.put("%d.nodiff.drpm" % k, ob)
        self.add(("apply", a, f, o("a3")), "apply/no difference", [o("a3")], **{"old.rpm": p.oldb, "delta.drpm": ob})
        if big:                                            # so much new data that every compressor gives output before the end
            x = copy.copy(p.new)
            x.files, x.order, x.comp, x.level = [R.File(b"/large", data=r.randbytes(400000))], None, "gzip", 1
            xb = x.build(ctx.helper)
            xn = self.put("%d.large.rpm" % k, xb)
            for c in (6, 5, 4, 3, 2, 1, 0):
                self.add(("make", a, xn, o("l%d" % c), "init,type=%d,comp=%d:%d" % (r.randrange(2), c, lv(c))), "make/large", [o("l%d" % c)],
                         **{"old.rpm": p.oldb, "new.rpm": xb})
        sid = dls[0][0].src_nevr + "-" + dls[0][0].sequence.hex()
        self.add(("seq", "-", sid, 1), "seq/full", **inp)
        self.add(("seq", "-", sid, 2), "seq/sizes", **inp)
        self.add(("seq", "-", sid, 0), "seq/database", **inp)
        fl, el = dgen.eligible(parts, D.uncompressed(parts, ctx.helper))
        full = parts.nevr() + "-" + D.full_sequence(fl, [x[0] for x in el], D.digest_algo(parts)).hex()
        self.add(("seq", a, full, 0), "seq/package", **inp)
        self.dls = dls
        self.changed(k, heads)
        if not failing:
            return
        bad = []
        for q in range(3):
            dl, ob, f, exp = r.choice(dls)
            m = malform.delta_mutant(r, dl, ob, ctx.helper)
            if m and m[2]:
                bad.append((m[0], m[1], f))
        for q, (how, mb, f) in enumerate(bad):
            g = self.put("%d.bad%d" % (k, q), mb)
            self.add(("read", g), "read/malformed " + how, **{"delta.drpm": mb})
            self.add(("apply", a, g, o("b%d" % q)), "apply/malformed " + how, [o("b%d" % q)], **{"delta.drpm": mb, "old.rpm": p.oldb})
            self.add(("check", g, 1), "check/malformed " + how, **{"delta.drpm": mb})
        for q in range(3):
            lab, mb = hostile.package(r, p.old, p.oldb, ctx.helper)
            g = self.put("%d.badrpm%d" % (k, q), mb)
            self.add(("make", g, b, o("c%d" % q), "init,comp=1:1,type=%d" % r.randrange(2)), "make/malformed old " + lab, [o("c%d" % q)], **{"old.rpm": mb, "new.rpm": p.newb})
            self.add(("apply", g, dls[r.randrange(3)][2], o("d%d" % q)), "apply/malformed old " + lab, [o("d%d" % q)], **{"old.rpm": mb})
            self.add(("seq", g, sid, 0), "seq/malformed package " + lab, **{"old.rpm": mb})
        no = os.path.join(d, "no-such-dir", "x")
        f = dls[0][2]
        self.add(("read", no), "read/missing")
        self.add(("apply", a, f, no), "apply/no directory", [])
        self.add(("apply", b, f, o("wrong")), "apply/wrong package", [o("wrong")])
        self.add(("apply", "-", dls[2][2], o("wrongk")), "apply/rpm-only installed", [o("wrongk")])
        self.add(("make", a, b, no, "init,comp=1:1"), "make/no directory", [])
        self.add(("make", a, b, o("e1"), "init,comp=1:1,seqfile=" + no), "make/no sequence directory", [o("e1")])
        self.add(("make", a, f, o("e2"), "init"), "make/not a package", [o("e2")])
        self.add(("make", a, b, o("e3"), "init,type=1,version=2"), "make/bad combination", [o("e3")])
        self.add(("make", a, b, o("e4"), "init,patches=%s:%s" % (pl, f)), "make/bad patches", [o("e4")])
        self.add(("make", a, b, o("e5"), "init,patches=%s:%s" % (b, pl)), "make/other print", [o("e5")])
        self.add(("seq", "-", "nopkg-1-1-" + "0" * 40, 1), "seq/not installed")
        self.add(("seq", a, sid[:-6], 0), "seq/short")
        self.add(("seq", "-", dls[0][0].src_nevr + "-" + "12" * 20, 1), "seq/other sequence")

    def changed(self, k, heads):
        """Calls that look at installed files, one of which was changed."""
        r, ctx, d = self.r, self.ctx, self.d
        for n, kinds in enumerate((["extend"], ["extend", "elf", "truncate", "flip", "delete", "directory", "dangling", "symlink", "empty"])):
            root = os.path.join(d, "r%d.%d" % (k, n))
            p = fslib.pair(ctx, r, root, b"chg%d-%d" % (k, n), source=False, maxlen=r.choice([100, 3000, 9000]), nfiles=r.choice([1, 2, 4]))
            parts = R.RpmParts(p.oldb)
            fl = [f for f in D.file_list(parts) if f.isreg and os.path.isfile(os.fsdecode(f.name)) and not os.path.islink(os.fsdecode(f.name))]
            if not fl:
                continue
            heads.append(parts.header)
            self.roots.append(root)
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, False, rpmonly=False, subset=False)
            f, out = self.put("%d.%d.chg.drpm" % (k, n), ob), os.path.join(d, "%d.%d.fromchg" % (k, n))
            how = r.choice(kinds)
            try:
                how = fslib.mutate(r, os.fsdecode(r.choice(fl).name), how)
            except OSError:
                continue
            sid = dl.src_nevr + "-" + dl.sequence.hex()
            inp = {"old.rpm": p.oldb, "delta.drpm": ob}
            for m in (1, 2):
                self.add(("check", f, m), "check/changed " + how, **inp)
                self.add(("seq", "-", sid, m), "seq/changed " + how, **inp)
            self.add(("apply", "-", f, out), "apply/changed " + how, [out], **inp)

    def baseline(self, drv, out=None, calls=None):
        """Runs every call alone and unhindered, records its outcome. Calls whose baseline run does not end normally are dropped
        (they are reported by the memory-error checks). Returns the number dropped."""
        from run import crashed
        calls = self.calls if calls is None else calls
        for c in calls:
            c.clear()
        res = drv.run([[c.op] for c in calls])
        keep = []
        for g, c in zip(res, calls):
            if crashed(g, 1) is not None:
                if out is not None:
                    out.add("baseline_dropped")
                continue
            c.rc, c.body, c.data = c.outcome(g["ops"][0])
            c.stats = g["ops"][0]
            keep.append(c)
        self.calls = keep
        return len(calls) - len(keep)

    def input_state(self):
        """Digest of every input file, the database and the installed files."""
        h = hashlib.md5()
        for p in sorted(self.inputs):
            h.update(p.encode() + (read(p) or b"?"))
        for base, ds, fs in sorted(x for root in self.roots for x in os.walk(root)):
            for f in sorted(fs):
                q = os.path.join(base, f)
                st = os.lstat(q)
                h.update(("%s %o %d " % (q, st.st_mode, st.st_mtime_ns)).encode("latin-1", "surrogateescape" if 0 else "replace"))
                if not os.path.islink(q) and os.path.isfile(q):
                    h.update(read(q) or b"?")
        return h.hexdigest()
