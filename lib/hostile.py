"""Hostile inputs: structure-aware mutations that keep enough of the surroundings intact to get deep into the code."""
import copy, hashlib, struct
import deltafmt as D
import malform
import rpmgen as R
from rpmgen import T

INTS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 95, 96, 255, 256, 1023, 8191, 8192, 8193, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000,
        0x80000001, 0xfffffffe, 0xffffffff, 0x00ffffff, 0x10000000, 0x20000000, 0x3fffffff, 0x40000000, 0x1fffffff]
be = malform.be
be8 = malform.be8


def havoc(r, b, n=None):
    b = bytearray(b)
    for _ in range(n or r.choice([1, 1, 2, 4, 10])):
        k = r.randrange(9)
        m = len(b)
        if k == 0 and m:
            b[r.randrange(m)] ^= 1 << r.randrange(8)
        elif k == 1 and m:
            b[r.randrange(m)] = r.choice([0, 255, 127, 128, r.randrange(256)])
        elif k == 2 and m >= 4:
            i = r.randrange(m - 3)
            b[i:i + 4] = be(r.choice(INTS))
        elif k == 3 and m >= 4:
            i = r.randrange(m - 3)
            v = struct.unpack(">I", b[i:i + 4])[0]
            b[i:i + 4] = be(v + r.choice([-1, 1, -8, 8, 256, -256]))
        elif k == 4 and m:
            i = r.randrange(m)
            del b[i:i + r.choice([1, 2, 4, 16, 100])]
        elif k == 5:
            i = r.randrange(m + 1)
            b[i:i] = r.randbytes(r.choice([1, 2, 4, 16, 100]))
        elif k == 6 and m:
            i, j = r.randrange(m), r.randrange(m)
            b[i:i] = b[j:j + r.choice([4, 8, 40])]
        elif k == 7 and m:
            del b[r.randrange(m):]
        elif k == 8 and m:
            i = r.randrange(m)
            c = r.choice([0, 255, 32])
            l = r.choice([2, 4, 8, 32])
            b[i:i + l] = bytes([c]) * len(b[i:i + l])
    return bytes(b)


def words(r, b):
    """Changes a few 32-bit words of an array."""
    n = len(b) // 4
    w = list(struct.unpack(">%dI" % n, b[:4 * n]))
    for _ in range(r.choice([1, 1, 2, 5])):
        k = r.randrange(6)
        if k <= 2 and w:
            i = r.randrange(len(w))
            w[i] = r.choice(INTS) if k == 0 else w[i] + r.choice([-1, 1, 8192, -8192]) if k == 1 else D.to_sm(-r.choice([1, 100, 8192])) & 0xffffffff
        elif k == 3 and len(w) > 1:
            i, j = r.randrange(len(w)), r.randrange(len(w))
            w[i], w[j] = w[j], w[i]
        elif k == 4:
            w.insert(r.randrange(len(w) + 1), r.choice(INTS))
        elif k == 5 and w:
            del w[r.randrange(len(w))]
    return struct.pack(">%dI" % len(w), *[x & 0xffffffff for x in w])


COUNT_OF = dict(nevr=("nevr_len", 1), seq=("seq_len", 1), param=("param_len", 1), offadj=("offadj_n", 8), leadsig=("leadsig_len", 1),
                int=("int_n", 8), ext=("ext_n", 8), add=("add_len", 1), int_data=("int_data_len", 1))


def header_havoc(r, h):
    """An RPM header with index entries or data changed; sizes kept consistent most of the time."""
    il, dl = struct.unpack_from(">II", h, 8)
    b = bytearray(h)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(8)
        if k < 4 and il:
            i = 16 + 16 * r.randrange(il)
            if i + 16 > len(b):
                continue
            f = r.choice([0, 4, 8, 12])
            v = struct.unpack_from(">I", b, i + f)[0]
            v = r.choice([r.choice(INTS), v + 1, v - 1, v + 8, r.choice(list(T.values()))]) if f != 4 else r.randrange(0, 11)
            struct.pack_into(">I", b, i + f, v & 0xffffffff)
        elif k < 7 and dl:
            i = 16 + 16 * il + r.randrange(dl)
            if i >= len(b):
                continue
            if r.random() < 0.5 and i + 4 <= len(b):
                struct.pack_into(">I", b, i, r.choice(INTS))
            else:
                b[i] = r.choice([0, 255, b[i] ^ (1 << r.randrange(8))])
        elif r.random() < 0.3:
            struct.pack_into(">I", b, r.choice([8, 12]), r.choice(INTS))
    return bytes(b)


def delta(r, dl, ob, helper, others=()):
    """(label, bytes)"""
    k = r.random()
    zoff = len(dl.front()) if dl.rpmonly else R.RpmParts(ob).hdr_end
    if k < 0.06:
        return "raw havoc", havoc(r, ob)
    if k < 0.10:
        return "havoc in the compressed stream", ob[:zoff] + havoc(r, ob[zoff:])
    if k < 0.15:
        return "cut", ob[:r.randrange(len(ob))]
    if k < 0.22 and not dl.rpmonly:
        x = copy.copy(dl)
        x.header = header_havoc(r, dl.header)
        return "target header", x.encode(helper)
    if k < 0.26 and not dl.rpmonly:
        p = R.RpmParts(ob)
        sg = header_havoc(r, ob[96:p.sig_end])
        return "signature of the delta", ob[:96] + sg + ob[p.sig_end:]
    if k < 0.32 and dl.rpmonly:
        return "front", havoc(r, ob[:min(zoff, 200)]) + ob[min(zoff, 200):]
    if k < 0.37:
        s = b"".join(b for _, b in malform.fields(dl))
        return "stream havoc", dl.encode(helper, havoc(r, s))
    if k < 0.40 and others:
        o = r.choice(others)
        zo = len(o[0].front()) if o[0].rpmonly else R.RpmParts(o[1]).hdr_end
        return "spliced", ob[:zoff] + o[1][zo:]
    if k < 0.45:
        s = b"".join(b for _, b in malform.fields(dl))
        c = [R.compress(helper, r.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "lzip", "none"]), 1, s[i:j]) for i, j in
             ((0, len(s) // 2), (len(s) // 2, len(s)))]
        return "several streams", ob[:zoff] + c[0] + r.choice([b"", b"\0", b"\0" * 4, r.randbytes(9)]) + c[1]
    # fields
    fs = malform.fields(dl)
    ix = {n: i for i, (n, _) in enumerate(fs)}
    lab = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n = r.choice(list(ix))
        v = fs[ix[n]][1]
        lab.append(n)
        if n in ("int", "ext", "offadj"):
            v = words(r, v)
        elif n.endswith("_len") or n.endswith("_n") or n in ("size", "fmtoff", "hdr_len"):
            if len(v) == 8:
                v = be8(r.choice([r.choice(INTS), 1 << r.randrange(64), (1 << 64) - 1, struct.unpack(">Q", v)[0] + r.choice([-1, 1, 1 << 32])]))
            else:
                v = be(r.choice([r.choice(INTS), struct.unpack(">I", v)[0] + r.choice([-1, 1, 2, -2, 8])]))
        elif n == "comp":
            v = be(r.randrange(0, 12) | r.choice([0, 1, 9, 10, 255, 0xffffff]) << 8)
        elif n == "magic":
            v = r.choice([b"DLT1", b"DLT2", b"DLT3", b"DLT0"])
        elif n == "leadsig" and r.random() < 0.6 and len(v) > 112:
            v = v[:96] + header_havoc(r, v[96:])
        elif n == "leadsig" and r.random() < 0.3 and len(v) > 113:
            v = v[:r.choice([r.randrange(112, len(v)), max(112, len(v) - r.randrange(1, 112))])]
        elif n == "add" and dl.add_data:
            k2 = r.random()
            if k2 < 0.4:
                v = havoc(r, v)
            else:
                try:
                    raw = R.decompress(helper, dl.add_data)[1]
                except malform.BAD:
                    raw = b"xyz"
                v = R.compress(helper, r.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "lzip", "none"]), 1,
                               raw[:r.randrange(len(raw) + 1)] if r.random() < 0.6 else raw + raw)
        elif n == "seq" and r.random() < 0.7:
            v = v[:16] + havoc(r, v[16:])
        else:
            v = havoc(r, v, 1)
        fs[ix[n]][1] = v
        if n in COUNT_OF and r.random() < 0.75:
            c, w = COUNT_OF[n]
            cb = be8(len(v) // w) if c == "int_data_len" and dl.version == 3 else be(len(v) // w)
            fs[ix[c]][1] = cb
    if dl.rpmonly and r.random() < 0.15 and dl.add_data:
        x = copy.copy(dl)
        x.add_data = havoc(r, dl.add_data)
        return "add block, fields " + "+".join(sorted(set(lab))), x.encode(helper, b"".join(b for _, b in fs))
    return "fields " + "+".join(sorted(set(lab))), dl.encode(helper, b"".join(b for _, b in fs))


# ---- packages ----------------------------------------------------------------------------------------------------------------------

def rpm_tags(r, rpm):
    """A package whose header lies: per-file arrays of wrong length or type, extreme values, missing tags."""
    o = copy.deepcopy(rpm)
    tags = o.tags()
    o.extra = dict(o.extra or {})
    arrays = [t for t in ("FILESIZES FILEMODES FILERDEVS FILEMD5S FILELINKTOS FILEFLAGS FILEVERIFYFLAGS DIRINDEXES BASENAMES DIRNAMES "
                          "FILECOLORS").split() if T[t] in tags]
    lab = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(9)
        n = r.choice(arrays) if arrays and k < 6 else r.choice(list(T))
        t = T[n]
        lab.append(n)
        typ, val = o.extra.get(t, tags.get(t, (R.INT32, [1])))
        if k == 0:
            o.drop = tuple(o.drop) + (t,)
            continue
        if k == 1 and isinstance(val, list):
            val = val[:r.randrange(len(val) + 1)]
            if not val:
                o.drop = tuple(o.drop) + (t,)
                continue
        elif k == 2 and isinstance(val, list):
            val = val + val[-1:] * r.choice([1, 3, 100])
        elif k in (3, 4, 5) and isinstance(val, list) and val:
            val = list(val)
            i = r.randrange(len(val))
            if typ == R.INT32:
                val[i] = r.choice(INTS)
                if n == "DIRINDEXES" and T["DIRNAMES"] in tags and r.random() < 0.5:
                    val[i] = len(tags[T["DIRNAMES"]][1]) + r.choice([0, 0, 1, -1])
            elif typ == R.INT16:
                val[i] = r.choice([0, 0xffff, 0o100644, 0o120777, 0o060600, 0o040755, 0o010600, 1])
            elif typ in (R.SARRAY, R.I18N):
                val[i] = r.choice([b"", b"/", b"a" * 70000, b"a/" * 3000, b"../../x", b"z" * 31, b"0" * 31, b"0" * 32, b"0" * 64, b"0" * 65,
                                   b"0" * 128, b"g" * 64, b"./x", b"\xff\xfe", b"0" * 30 + b"  ", val[i] + b"0", val[i][:-1]])
        elif k == 6:
            typ, val = r.choice([(R.INT32, [r.choice(INTS)]), (R.STRING, b"str"), (R.SARRAY, [b"a", b"b", b"c"]), (R.BIN, r.randbytes(9)),
                                 (R.INT16, [1, 2]), (R.STRING, b""), (R.STRING, b"q" * 5000)])
        elif k == 7:
            o.extra[T["FILEDIGESTALGO"]] = (R.INT32, [r.choice([1, 2, 8, 9, 10, 11, 0, 3, 99, 0xffffffff])])
            continue
        elif k == 8:
            o.extra[r.choice([T["PAYLOADFLAGS"], T["PAYLOADCOMPRESSOR"], T["PAYLOADFORMAT"]])] = \
                (R.STRING, r.choice([b"", b"0", b"9", b"12", b"T0", b"xz", b"lzma", b"gzip", b"bzip2", b"zstd", b"lzip", b"none", b"xar", b"cpio",
                                     b"drpm", b"-1", b"99999999999"]))
            continue
        o.extra[t] = (typ, val)
    if r.random() < 0.15:
        t = r.choice([x for x in tags])
        o.raw_counts = {t: r.choice(INTS)}
    return "tags " + "+".join(sorted(set(lab))), o


def cpio(r, files, order):
    """A lying cpio archive."""
    out = []
    fl = list(order if order is not None else files)
    ent = []
    for f in fl:
        if f.in_cpio:
            ent.append([f.cpio_name if f.cpio_name is not None else b"." + f.name, f.mode, f.payload(), {}])
    ent.append([b"TRAILER!!!", 0, b"", {}])
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.randrange(13)
        e = r.choice(ent)
        if k == 0:
            e[3]["filesize"] = r.choice(INTS[:-2] + [len(e[2]) + 1, max(0, len(e[2]) - 1)])
        elif k == 1:
            e[3]["namesize"] = r.choice([0, 1, 2, len(e[0]), len(e[0]) + 2, 0x7fffffff, 0xffffffff, 5000])
        elif k == 2:
            e[0] = r.choice([b"", b".", b"./", b"/", b"TRAILER!!!", b"a" * 9000, b"./" + b"b/" * 3000, e[0][1:], e[0] + b"\0x", b"TRAILER!!", b"\0"])
        elif k == 3:
            ent.insert(r.randrange(len(ent) + 1), copy.deepcopy(e))
        elif k == 4 and len(ent) > 1:
            ent.remove(e)
        elif k == 5:
            e[1] = r.choice([0, 0xffffffff, 0o100644, 0o120777, 0o040755])
        elif k == 6:
            e[2] = havoc(r, e[2])
        elif k == 7:
            e[2] = e[2] + r.randbytes(r.choice([1, 4, 100, 9000]))
        elif k == 8:
            ent.append([b"./after", 0o100644, b"data", {}])
        elif k == 9:
            e[3]["nlink"] = r.choice([2, 0, 0xffffffff])
        elif k == 10:
            r.shuffle(ent)
        elif k == 11:
            e[2] = b""
        elif k == 12:
            e[2], e[3]["filesize"] = r.randbytes(r.choice([0, 3])), 0
    b = b"".join(R.cpio_entry(n, m, d, **kw) for n, m, d, kw in ent)
    if r.random() < 0.15:
        b = havoc(r, b)
    return b


def package(r, rpm, b, helper):
    """(label, bytes)"""
    k = r.random()
    p = R.RpmParts(b)
    if k < 0.06:
        return "raw havoc", havoc(r, b)
    if k < 0.10:
        return "cut", b[:r.randrange(len(b))]
    if k < 0.16:
        return "header havoc", b[:p.hdr_start] + header_havoc(r, p.header) + p.payload
    if k < 0.21:
        s = header_havoc(r, b[96:p.sig_end])
        return "signature havoc", b[:96] + s + b[p.sig_end:]
    if k < 0.26:
        return "payload havoc", b[:p.hdr_end] + havoc(r, p.payload)
    if k < 0.32:
        c = R.compress(helper, r.choice(["gzip", "bzip2", "xz", "lzma", "zstd", "lzip", "none"]), 1, cpio(r, rpm.files, rpm.order))
        return "other compression", b[:p.hdr_end] + c
    o, lab = rpm, ""
    if k < 0.75:
        lab, o = rpm_tags(r, rpm)
    if k > 0.6:
        o = copy.deepcopy(o)
        o.cpio = cpio(r, o.files, o.order)
        lab += " cpio"
    try:
        return lab, o.build(helper)
    except (struct.error, ValueError, TypeError, AttributeError):
        return "header havoc", b[:p.hdr_start] + header_havoc(r, p.header) + p.payload
