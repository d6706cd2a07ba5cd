"""P04: check verdicts agree with the installed files and with the package."""
import hashlib, os
import deltafmt as D
import dgen
import fslib
import gen as G
import rpmgen as R
from run import Check, crashed, run_packed
from p01 import write

OK, ARGS, IO, FORMAT, MISMATCH, NOINSTALL = 0, 2, 3, 4, 9, 10
NONE, FULL, SIZES = 0, 1, 2


def seq_valid(fl, seq, algo):
    """The indices a sequence names when it belongs to this file list, else None."""
    try:
        idx = D.seq_decode(seq)
    except D.FormatError:
        return None
    if len(idx) > len(fl) or any(i >= len(fl) for i in idx):
        return None
    try:
        if D.seq_md5(fl, idx, algo) != seq[:16]:
            return None
    except ValueError:
        return None
    return idx


def alter_seq(r, seq, n):
    """Another sequence; what was done."""
    k = r.choice(["md5", "order", "cut", "longer", "random", "short"])
    if k == "md5":
        i = r.randrange(16)
        return seq[:i] + bytes([seq[i] ^ (1 << r.randrange(8))]) + seq[i + 1:], k
    if k == "order" and len(seq) > 16:
        i = r.randrange(16, len(seq))
        return seq[:i] + bytes([seq[i] ^ (1 << r.randrange(8))]) + seq[i + 1:], k
    if k == "cut" and len(seq) > 16:
        return seq[:-1], k
    if k == "longer":
        return seq + r.choice([b"\x10", b"\x88", b"\xff" * 9, b"\x01", r.randbytes(3)]), k
    if k == "short":
        return seq[:r.randrange(16)], k
    return r.randbytes(r.choice([16, 17, 30])), "random"


def verdict(fl, idx, algo, mode):
    """Set of acceptable codes for files as found on disk; a successful answer is acceptable alone or not at all."""
    codes = set()
    for i in idx:
        f = fl[i]
        if not f.isreg or f.size == 0:
            continue
        c, s = fslib.file_state(f, algo)
        if mode == FULL:
            if c is None:
                codes |= {IO, NOINSTALL, MISMATCH}
            elif not c:
                codes.add(MISMATCH)
        elif mode == SIZES:
            if s is None or not s and c is None:
                codes |= {NOINSTALL, IO, MISMATCH}
            elif not s:
                codes.add(MISMATCH)
    return codes or {OK}


def tweak_nevr(r, nevr, taken=()):
    """A name-epoch:version-release that differs slightly (and is not installed)."""
    while True:
        t = tweak1(r, nevr)
        if t not in taken:
            return t


def tweak1(r, nevr):
    n, vr = nevr.rsplit("-", 2)[0], nevr.rsplit("-", 2)[1:]
    k = r.randrange(5)
    if k == 0:
        return n + "x-" + "-".join(vr)
    if k == 1:
        return n + "-" + vr[0] + "-" + vr[1] + ".1"
    if k == 2:
        return n + "-" + (vr[0].split(":", 1)[1] if ":" in vr[0] else "1:" + vr[0]) + "-" + vr[1]
    if k == 3:
        return n + "-" + vr[0] + "0-" + vr[1]
    return n[:-1] + "-" + "-".join(vr) if len(n) > 1 else "y-" + "-".join(vr)


def unit(ctx, r, i, out):
    d = ctx.fresh()
    db = fslib.Db(d)
    heads, pk, taken = [], [], set()
    for k in range(4):
        root = os.path.join(d, "r%d" % k)
        p = fslib.pair(ctx, r, root, b"pkg%d" % k, source=False, maxlen=r.choice([300, 3000, 20000]), nfiles=r.choice([None, 3, 6, 12]))
        reg = [f for f in p.old.files if f.isreg() and f.data and f.in_header and f.digest is None]
        if reg and r.random() < 0.2:                   # the recorded digest differs from the file's in one digit, here or there
            f = r.choice(reg)
            h = bytearray(hashlib.new(p.old.digest, f.data).hexdigest().encode())
            j = r.choice([0, 1, len(h) - 1, len(h) - 2, len(h) // 2, r.randrange(len(h))])
            h[j] = ord(r.choice([x for x in "0123456789abcdef" if ord(x) != h[j]]))
            f.digest = bytes(h)
            p.oldb = p.old.build(ctx.helper)
            out.add("nearly_matching_digests")
        p.root, p.parts, p.installed = root, R.RpmParts(p.oldb), r.random() < 0.9
        p.fl, p.algo, p.nevr = D.file_list(p.parts), D.digest_algo(p.parts), p.parts.nevr()
        p.path = os.path.join(d, "%d.old.rpm" % k)
        write(p.path, p.oldb)
        if p.installed:
            vs = fslib.variants(ctx, r, p.old)
            hs = [p.parts.header] + [v.header for v in vs]
            r.shuffle(hs)
            heads += hs
            taken |= {v.nevr() for v in vs}
            out.add("other_versions_installed", len(hs) - 1)
        p.deltas = []
        for m in range(3):
            f = os.path.join(d, "%d.%d.drpm" % (k, m))
            dl, ob, exp = dgen.make_delta(r, p, ctx.helper, rpmonly=r.random() < 0.15)
            if m == 2:
                j = r.random()
                if j < 0.4:
                    dl.src_nevr = tweak_nevr(r, dl.src_nevr, taken)
                elif not dl.rpmonly:
                    s, _ = alter_seq(r, dl.sequence, len(p.fl))
                    dl.sequence = s if len(s) >= 16 else dl.sequence
                ob = dl.encode(ctx.helper)
            write(f, ob)
            p.deltas.append((dl, f, exp))
        pk.append(p)
    db.add(heads or [R.RpmParts(G.pair(r, ctx.helper, name=b"other").oldb).header])
    sig = {}
    for rnd in range(3):
        changed = {}
        if rnd:
            for p in pk:
                fslib.shutil.rmtree(p.root)
                os.makedirs(p.root)
                fslib.install(p.old.files)
                reg = [f for f in p.fl if f.isreg and os.path.isfile(os.fsdecode(f.name)) and not os.path.islink(os.fsdecode(f.name))]
                for f in r.sample(reg, min(len(reg), r.choice([1, 1, 1, 3]))):
                    try:
                        changed[f.name] = fslib.mutate(r, os.fsdecode(f.name))
                    except OSError:
                        pass
        units, want = [], []

        def add(op, codes, what, imply=None):
            units.append([op] + ([("apply", "-", imply, os.path.join(d, "x.out"))] if imply else []))
            want.append((codes, what, imply))
        for p in pk:
            for dl, f, exp in p.deltas:
                for mode in (FULL, SIZES):
                    imply = None
                    if not p.installed:
                        codes = {NOINSTALL}
                    elif dl.src_nevr != p.nevr:
                        codes = {NOINSTALL, MISMATCH}
                    elif dl.rpmonly:
                        codes = None
                    else:
                        idx = seq_valid(p.fl, dl.sequence, p.algo)
                        if idx is None:
                            codes = {MISMATCH, FORMAT, IO, NOINSTALL}
                        else:
                            codes = verdict(p.fl, idx, p.algo, mode)
                            imply = f if mode == FULL and dl.md5_kind == "full" else None
                    add(("check", f, mode), codes, "delta, mode %d" % mode, imply)
                if rnd == 0 and not dl.rpmonly:
                    seqs = [(dl.sequence, "same")] + [alter_seq(r, dl.sequence, len(p.fl)) for _ in range(4)]
                    for s, how in seqs:
                        nevr = tweak_nevr(r, p.nevr, taken) if r.random() < 0.15 else dl.src_nevr
                        tail = r.choice(["", "", ""]) if how == "same" else r.choice(["", "", "g", "0"])
                        sid = nevr + "-" + (s.hex() if r.random() < 0.8 else s.hex().upper()) + tail
                        idx = seq_valid(p.fl, s, p.algo)
                        for mode in (NONE, FULL, SIZES):
                            if len(s) < 16 or tail == "g" and False:
                                codes = {FORMAT}
                            elif not p.installed:
                                codes = {NOINSTALL}
                            elif nevr != p.nevr:
                                codes = {NOINSTALL, MISMATCH}
                            elif idx is None:
                                codes = {MISMATCH, FORMAT, IO, NOINSTALL}
                            else:
                                codes = verdict(p.fl, idx, p.algo, mode)
                            add(("seq", "-", sid, mode), codes, "sequence %s, mode %d, database" % (how, mode))
                        codes = {FORMAT} if len(s) < 16 else {MISMATCH} if nevr != p.nevr else {OK} if idx is not None else {MISMATCH, FORMAT}
                        add(("seq", p.path, sid, NONE), codes, "sequence %s, package file" % how)
            if rnd == 0:
                md5 = hashlib.md5(p.parts.header + p.parts.payload).digest()
                for s, nv, c in ((md5, p.nevr, {OK}), (md5, tweak_nevr(r, p.nevr, taken), {MISMATCH}), (md5[::-1], p.nevr, {MISMATCH, FORMAT}),
                                 (md5 + b"\0", p.nevr, {MISMATCH, FORMAT})):
                    add(("seq", p.path, nv + "-" + s.hex(), NONE), c, "signature digest, package file")
        # mode NONE must not look at the files: same answer whatever their state (compared with round 0)
            if rnd:
                for dl, f, exp in p.deltas:
                    if dl.rpmonly or not p.installed or dl.src_nevr != p.nevr:
                        continue
                    idx = seq_valid(p.fl, dl.sequence, p.algo)
                    sid = dl.src_nevr + "-" + dl.sequence.hex()
                    add(("seq", "-", sid, NONE), {OK} if idx is not None else {MISMATCH, FORMAT}, "changed files, mode 0")
                    for mode in (FULL, SIZES):
                        add(("seq", "-", sid, mode), verdict(p.fl, idx, p.algo, mode) if idx is not None else
                            {MISMATCH, FORMAT, IO, NOINSTALL}, "changed files, sequence, mode %d" % mode)
        for g, u, (codes, what, imply) in zip(run_packed(ctx.drv(env=db.env), units, per=12), units, want):
            out.add("verdicts")
            w = "%s; on disk: %s" % (what, changed)
            fb = {"delta.drpm": u[0][1]} if u[0][0] == "check" else {"old.rpm": u[0][1]}
            c = crashed(g, len(u))
            if c:
                out.bad("crash: " + c[0], w + "\n" + c[1], fb, u)
                continue
            rc = g["ops"][0]["rc"]
            if codes is None:
                out.add("rpm_only_deltas")
                if rc not in range(11):
                    out.bad("undocumented code", w, fb, u)
                continue
            if rc not in codes:
                out.bad("%s answered %d, expected %s" % (what.split(",")[0], rc, sorted(codes)), w, fb, u)
                continue
            out.add("ok" if rc == 0 else "refused_%d" % rc)
            if imply and rc == 0:
                out.add("full_check_then_rebuild")
                if g["ops"][1]["rc"] != 0:
                    out.bad("full check succeeded, rebuilding failed with %d" % g["ops"][1]["rc"], w, fb, u)
            out.sig((what, rc, tuple(sorted(set(changed.values())))))
            out.sample("%s -> %d" % (w[:200], rc))


def main():
    c = Check("P04", "exploration", "distinct = (kind of check, verdict, kinds of changes on disk)",
              ["the RPM database is a scratch sqlite database filled through rpmdb --importdb", "prelink is not installed; P20 covers it"])
    c.build(["asan"])
    n = 1500 if c.thorough() else 70
    c.map(unit, n)
    c.finish(c.total.counts.get("verdicts", 0), {"ok": n * 20, "refused_9": n * 20, "refused_10": n * 3, "refused_4": n,
                                                 "full_check_then_rebuild": n})
