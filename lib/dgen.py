"""Generator of well-formed deltas (not produced by the library) for a given package pair."""
import hashlib, struct
import deltafmt as D
import rpmgen as R
from rpmgen import T

BS = 8192


def eligible(parts, cpio):
    """[(header index, offset, data)] of archive entries a sequence may name (one per header index, archive order)."""
    fl = D.file_list(parts)
    by = {}
    for i, f in enumerate(fl):
        by.setdefault(f.key, i)
    out, seen = [], set()
    for off, name, fs, data, _ in D.parse_cpio(cpio):
        k = name[2:] if name[:2] == b"./" else name
        i = by.get(k)
        if i is None or i in seen:
            continue
        f = fl[i]
        if f.isreg and (fs != f.size or (f.size and not f.digest)):
            continue
        if not f.isreg and not f.islnk and fs:
            continue
        seen.add(i)
        out.append((i, off, data))
    return fl, out


def rand_copies(r, extlen, total, maxn=60):
    """External copies over [0, extlen) adding up to at most total bytes, and internal copies distributing them."""
    ext, pos, left = [], 0, total
    n = r.choice([0, 1, 2, 5, 12, maxn])
    if extlen > 4 * BS and r.random() < 0.25:
        return block_hops(r, extlen, left, maxn)
    hot = [r.randrange(max(1, extlen)) for _ in range(3)]
    for _ in range(n):
        if extlen == 0 or left <= 0:
            break
        k = r.random()
        if k < 0.3:
            st = pos
        elif k < 0.5:
            st = r.choice(hot)
        elif k < 0.6:
            st = min(extlen, (r.randrange(extlen) // BS) * BS + r.choice([0, 0, 1]))
        elif k < 0.7:
            st = max(0, pos - r.randrange(1, 2 * BS))
        else:
            st = r.randrange(extlen)
        mx = min(extlen - st, left)
        k = r.random()
        if k < 0.12:
            ln = 0
        elif k < 0.3:
            ln = min(mx, r.choice([1, 2, 3, 15, 16, 17, 100]))
        elif k < 0.45:
            ln = min(mx, BS - st % BS)            # up to a block boundary
        elif k < 0.6:
            ln = min(mx, r.choice([BS, BS + 1, BS - 1, 2 * BS, 3 * BS + 5]))
        elif k < 0.65:
            ln = mx
        else:
            ln = r.randrange(mx + 1) if mx > 0 else 0
        if st + ln == 0:
            continue                               # the reader refuses a copy that ends at offset 0
        ext.append((st - pos, ln))
        pos = st + ln
        left -= ln
    return ext


def block_hops(r, extlen, total, maxn):
    """Copies that visit single blocks in no particular order, from their start or whole: every visit is a fresh position in its file."""
    ext, pos = [], 0
    nb = (extlen + BS - 1) // BS
    todo = list(range(nb))
    k = r.random()
    if k < 0.4:
        r.shuffle(todo)
    elif k < 0.8:          # every second block, then the others
        todo = todo[::2] + todo[1::2]
    else:
        todo = todo[::-1]
    for b in todo[:maxn]:
        st = b * BS
        ln = min(r.choice([1, 20, BS, BS]), extlen - st, total)
        if ln <= 0:
            break
        ext.append((st - pos, ln))
        pos, total = st + ln, total - ln
    return ext


def rand_ints(r, ne, maxlen):
    """Internal copies: (external copies before it, length), consuming all ne external copies."""
    out, left = [], ne
    while left or not out:
        k = r.choice([0, 1, 1, 1, 2, 3, left])
        k = min(k, left)
        out.append((k, r.choice([0, 0, 1, 7, 300, r.randrange(maxlen + 1)])))
        left -= k
        if len(out) > 200:
            out.append((left, 0))
            break
    for _ in range(r.choice([0, 0, 1, 3])):
        out.append((0, r.randrange(50)))
    if ne == 0 and r.random() < 0.2:
        return []
    return out


def leadsig_for(r, new, head_and_payload, md5=True):
    sig = {R.SIG_SIZE: (R.INT32, [len(head_and_payload)])}
    if md5:
        sig[R.SIG_MD5] = (R.BIN, hashlib.md5(head_and_payload).digest())
    if r.random() < 0.5:
        sig[R.SIG_RESERVED] = (R.BIN, b"\0" * r.choice([4, 32, 100, 4096, 9000 + r.randrange(8)]))
    sh = R.build_header(sig, 62)
    return new.data[:96] + sh + b"\0" * (-len(sh) % 8)


def align(r, d, nd, helper, lvl):
    """Appends random internal data until the compressed payload fills a whole number of the library's 1024-byte pieces."""
    n = r.randrange(1, 1200)
    for _ in range(40):
        x = r.randbytes(n)
        k = len(R.compress(helper, d.tgt_comp, lvl, (nd + x)[d.tgt_header_len:]))
        if k % 1024 == 0:
            d.int_copies.append((0, n))
            d.int_data += x
            return nd + x
        n += (-k) % 1024 if (-k) % 1024 < 512 else (-k) % 1024 - 1024
        if n <= 0:
            n += 1024
    return nd


def make_delta(r, p, helper, big=False, rpmonly=None, version=None, nodiff=False, subset=None, tgt_comps=None, comps=None):
    """A well-formed delta for old package p.old -> something; returns (Delta, encoded bytes, expected output)."""
    old, new = R.RpmParts(p.oldb), R.RpmParts(p.newb)
    cpio = D.uncompressed(old, helper)
    d = D.Delta()
    d.rpmonly = (r.random() < 0.4) if rpmonly is None else rpmonly
    if nodiff:
        d.rpmonly = True
    d.version = 3 if d.rpmonly else (version or r.choice([1, 2, 3, 3]))
    d.src_nevr, d.tgt_nevr = old.nevr(), new.nevr()
    d.comp = r.choice(comps or ["gzip", "gzip", "bzip2", "xz", "lzma", "zstd", "lzip", "none"])
    d.level = r.choice([1, 2, 6])
    if r.random() < 0.25:
        d.style = r.getrandbits(32)                     # compressed as others may do it
    d.lead, d.header = new.data[:96], D.patched_header(new.header, b"drpm")
    d.payload_fmt_off = D.payload_fmt_off(new.header)
    if d.rpmonly:
        d.sequence = hashlib.md5(old.header + old.payload).digest()
        ext = old.header + cpio
        d.kept_offs = None
    else:
        fl, el = eligible(old, cpio)
        if subset is None:
            subset = r.random() < (0.2 if getattr(p, "grid", False) else 0.6)
        if subset and el:
            m = r.random()
            el = [e for e in el if r.random() < m]
        ext, d.kept_offs = D.altered_cpio(fl, el)
        d.sequence = D.full_sequence(fl, [e[0] for e in el], D.digest_algo(old))
    d.ext = ext
    d.ext_len = len(ext)
    if nodiff:
        d.tgt_comp, d.tgt_level, d.tgt_header_len = "none", 0, len(old.header)
        d.comp = "gzip"
        out_tail = old.header + old.payload
    else:
        tot = r.choice([200, 5000, 60000, 250000]) if big else r.choice([50, 3000, 40000])
        if big == "huge":                              # hundreds of blocks, visited in no order
            d.ext_copies = block_hops(r, len(ext), len(ext), 900)
        elif getattr(p, "grid", False) and len(ext) > 2 * BS and r.random() < 0.6:
            d.ext_copies = block_hops(r, len(ext), len(ext), 200)
        else:
            d.ext_copies = rand_copies(r, len(ext), tot)
        d.int_copies = rand_ints(r, len(d.ext_copies), r.choice([5, 400, 9000]))
        d.int_data = r.randbytes(sum(b for _, b in d.int_copies))
        if not big and r.random() < 0.05:              # much that compresses well: more comes out than goes in
            n = r.choice([140000, 300000, 700000])
            d.int_data += bytes(n) if r.random() < 0.5 else bytes(r.choices(b"abcd", k=n))
            d.int_copies.append((0, n))
        el = sum(b for _, b in d.ext_copies)
        if el >= 8 and r.random() < 0.55:
            a = bytes(r.choice([0, 0, 0, 1, 255, r.randrange(256)]) for _ in range(el)) if el < 3000 else \
                (b"\0" * r.randrange(50) + r.randbytes(40)) * (el // 40 + 1)
            a = a[:el]
            ac = r.choice(["none", "gzip", "bzip2", "xz", "lzma", "zstd", "lzip"])
            if ac == "none":
                a = b"\0\0" + a[2:]
            d.add_data = R.restyle(r, helper, ac, a) if r.random() < 0.25 else R.compress(helper, ac, r.choice([1, 6]), a)
            d.add_comp = ac
        if d.version == 1:
            d.tgt_comp, d.tgt_level = new.comp() or "none", 0
        else:
            d.tgt_comp = r.choice(tgt_comps or ["gzip", "bzip2", "xz", "lzma", "zstd", "none"])
            d.tgt_level = {"gzip": r.choice([0, 1, 9]), "bzip2": r.choice([0, 1, 9]), "xz": r.choice([0, 1, 6]),
                           "lzma": r.choice([0, 1, 5]), "zstd": r.choice([1, 3, 9]), "none": 0}[d.tgt_comp]
            if d.tgt_comp in ("gzip", "bzip2") and r.random() < 0.0:
                d.tgt_algo_code = {"gzip": 3, "bzip2": 4}[d.tgt_comp]
            if r.random() < 0.2:
                d.tgt_comp_param = r.randbytes(r.choice([1, 4, 100]))
        nd = d.new_data(ext, helper)
        if d.rpmonly:
            if not nd:
                d.int_copies = [(len(d.ext_copies), 5)]
                d.int_data = b"abcde"
                nd = d.new_data(ext, helper)
            d.tgt_header_len = r.choice([1, len(nd), r.randrange(1, len(nd) + 1), min(len(nd), len(new.header))])
        elif d.version == 3 and nd and r.random() < 0.1:
            d.tgt_header_len = r.randrange(1, len(nd) + 1)
        lvl = d.tgt_level or D.DEFLEVEL[d.tgt_comp]
        if d.tgt_comp != "none" and not big and len(nd) < 30000 and r.random() < 0.1:
            nd = align(r, d, nd, helper, lvl)
        head = b"" if d.rpmonly else D.patched_header(d.header, b"cpio")
        out_tail = head + nd[:d.tgt_header_len] + R.compress(helper, d.tgt_comp, lvl, nd[d.tgt_header_len:])
        if d.rpmonly and d.tgt_comp == "none" and not d.int_copies and not d.ext_copies:
            return make_delta(r, p, helper, big, rpmonly, version, nodiff, subset, tgt_comps)
    if d.version == 3 and r.random() < 0.5:
        d.offadj = [(r.randrange(1000), r.randrange(-5000, 5000)) for _ in range(r.choice([1, 2, 9]))]
    how = r.random()
    d.leadsig = leadsig_for(r, new, out_tail, md5=how < 0.9)
    out = d.leadsig + out_tail
    d.tgt_size = len(out)
    d.tgt_md5 = b"\0" * 16 if how > 0.8 else hashlib.md5(out).digest()
    d.md5_kind = "none-and-unsigned" if how >= 0.9 else "signature" if how > 0.8 else "full"
    return d, d.encode(helper), out
