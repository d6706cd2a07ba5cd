"""Malformed inputs, each with the reason why it is malformed."""
import copy, struct
import deltafmt as D
import rpmgen as R

be = lambda v: struct.pack(">I", v & 0xffffffff)
be8 = lambda v: struct.pack(">Q", v & 0xffffffffffffffff)
BAD = (ValueError, RuntimeError, EOFError, R.zlib.error, R.lzma.LZMAError, OSError)


PERFILE = "FILESIZES FILEMODES FILERDEVS FILEMD5S FILELINKTOS FILEFLAGS FILEVERIFYFLAGS DIRINDEXES BASENAMES FILECOLORS".split()


def fields(d):
    """The stream of a delta as an ordered list of [name, bytes]."""
    n = d.src_nevr.encode("latin-1") + b"\0"
    f = [["magic", b"DLT%d" % d.version], ["nevr_len", be(len(n))], ["nevr", n], ["seq_len", be(len(d.sequence))],
         ["seq", d.sequence], ["md5", d.tgt_md5]]
    if d.version >= 2:
        code = d.tgt_algo_code if d.tgt_algo_code is not None else D.ALGO_ENC[d.tgt_comp]
        f += [["size", be(d.tgt_size)], ["comp", be(code | d.tgt_level << 8)], ["param_len", be(len(d.tgt_comp_param))],
              ["param", d.tgt_comp_param]]
    if d.version >= 3:
        f += [["hdr_len", be(d.tgt_header_len)], ["offadj_n", be(len(d.offadj))],
              ["offadj", b"".join(be(a) for a, _ in d.offadj) + b"".join(be(D.to_sm(b)) for _, b in d.offadj)]]
    f += [["leadsig_len", be(len(d.leadsig))], ["leadsig", d.leadsig], ["fmtoff", be(d.payload_fmt_off)],
          ["int_n", be(len(d.int_copies))], ["ext_n", be(len(d.ext_copies))],
          ["int", b"".join(be(a) for a, _ in d.int_copies) + b"".join(be(b) for _, b in d.int_copies)],
          ["ext", b"".join(be(D.to_sm(a)) for a, _ in d.ext_copies) + b"".join(be(b) for _, b in d.ext_copies)],
          ["ext_len", be8(d.ext_len) if d.version == 3 else be(d.ext_len)],
          ["add_len", be(0) if d.rpmonly else be(len(d.add_data))], ["add", b"" if d.rpmonly else d.add_data],
          ["int_data_len", be8(len(d.int_data)) if d.version == 3 else be(len(d.int_data))], ["int_data", d.int_data]]
    return f


def delta_mutant(r, d, enc, helper):
    """(label, bytes, rejected by read) of a malformed version of delta d, whose encoding is enc; None when not applicable."""
    k = r.choice(["cut", "cut", "cut-end", "magic", "version", "comp", "seq_len", "leadsig", "count", "ext-range", "ext-negative",
                  "int-data", "ext-consume", "stream", "stream", "front", "int-range", "stream-cut", "inner-add", "hdr-len", "frame", "frame", "leadsig-cut",
                  "leadsig-magic"])
    fs = fields(d)
    ix = {n: i for i, (n, _) in enumerate(fs)}

    def put(name, val):
        g = [list(x) for x in fs]
        g[ix[name]][1] = val
        return d.encode(helper, b"".join(x for _, x in g))
    zlen = len(enc) - (len(d.front()) if d.rpmonly else R.RpmParts(enc).hdr_end)
    if k == "cut":
        n = r.choice([0, 1, 3, 4, 7, 8, 95, 96, r.randrange(len(enc)), r.randrange(len(enc)), len(enc) - zlen, len(enc) - zlen + 3,
                      len(enc) - zlen + r.randrange(zlen)])
        return "cut to %d of %d" % (n, len(enc)), enc[:n], True
    if k == "cut-end":
        n = r.randrange(1, min(12, zlen))
        return "last %d bytes missing" % n, enc[:-n], True
    if k == "magic":
        i = r.randrange(4)
        return "file magic", enc[:i] + bytes([enc[i] ^ r.randrange(1, 256)]) + enc[i + 1:], True
    if k == "front":
        if d.rpmonly:
            i = r.randrange(4, 8)
            return "rpm-only version magic", enc[:i] + bytes([enc[i] ^ r.randrange(1, 256)]) + enc[i + 1:], True
        p = R.RpmParts(enc)
        i = r.choice([96, 97, 98, p.hdr_start, p.hdr_start + 1, p.hdr_start + 2])
        return "header magic", enc[:i] + bytes([enc[i] ^ r.randrange(1, 256)]) + enc[i + 1:], True
    if k == "version":
        v = r.choice([b"DLT0", b"DLT4", b"DLT9", b"DLTa", b"dlt3", b"DLU3", b"\0\0\0\3", b"DLT\xff"] + ([b"DLT1", b"DLT2"] if d.rpmonly else []))
        return "stream version %r" % v, put("magic", v), True
    if k == "comp":
        if d.version < 2:
            return None
        c = r.choice([x for x in range(256) if x not in D.ALGO])
        return "target compression %d" % c, put("comp", be(c | r.choice([0, 1, 9]) << 8)), True
    if k == "seq_len":
        n = r.choice([0, 1, 8, 15] + ([17, 32] if d.rpmonly else []))
        g = [list(x) for x in fs]
        g[ix["seq_len"]][1], g[ix["seq"]][1] = be(n), r.randbytes(n)
        return "sequence of %d bytes" % n, d.encode(helper, b"".join(x for _, x in g)), True
    if k == "leadsig":
        n = r.choice([0, 1, 95, 96, 111])
        g = [list(x) for x in fs]
        g[ix["leadsig_len"]][1], g[ix["leadsig"]][1] = be(n), d.leadsig[:n]
        return "lead and signature of %d bytes" % n, d.encode(helper, b"".join(x for _, x in g)), True
    if k in ("leadsig-cut", "leadsig-magic"):
        g = [list(x) for x in fs]
        il, dl_ = struct.unpack(">II", d.leadsig[104:112])
        end = 112 + il * 16 + dl_                       # of the signature, without its padding
        if k == "leadsig-cut":
            n = r.choice([112, end - 1, end - r.randrange(1, 105), r.randrange(112, end)])
            n = max(112, min(n, end - 1))
            g[ix["leadsig_len"]][1], g[ix["leadsig"]][1] = be(n), d.leadsig[:n]
            return "signature cut short", d.encode(helper, b"".join(x for _, x in g)), False
        i = r.randrange(96, 100)
        g[ix["leadsig"]][1] = d.leadsig[:i] + bytes([d.leadsig[i] ^ r.randrange(1, 256)]) + d.leadsig[i + 1:]
        return "signature magic", d.encode(helper, b"".join(x for _, x in g)), False
    if k == "count":
        n = r.choice([x for x in ("nevr_len", "seq_len", "param_len", "offadj_n", "leadsig_len", "int_n", "ext_n", "int_data_len", "add_len")
                      if x in ix])
        v = r.choice([0x7fffffff, 0x80000000, 0xffffffff, 0x10000000, 0x00ffffff])
        if n == "int_data_len" and d.version == 3:
            v = r.choice([v, len(d.int_data) + 1, 1 << 40, 1 << 63, (1 << 64) - 1])
            return "%s = %#x" % (n, v), put(n, be8(v)), True
        return "%s = %#x" % (n, v), put(n, be(v)), True
    if k == "ext-range" and d.ext_copies:
        i = r.randrange(len(d.ext_copies))
        e = list(d.ext_copies)
        pos = sum(a + b for a, b in e[:i])
        e[i] = (e[i][0], d.ext_len - pos - e[i][0] + r.choice([1, 2, 8192, 100000]))
        if e[i][1] > 0xffffffff:
            return None
        e2 = [x for x in e]
        return "external copy past the end", put("ext", b"".join(be(D.to_sm(a)) for a, _ in e2) + b"".join(be(b) for _, b in e2)), True
    if k == "ext-negative" and d.ext_copies:
        i = r.randrange(len(d.ext_copies))
        e = list(d.ext_copies)
        pos = sum(a + b for a, b in e[:i])
        if pos > 0x7ffffff0:
            return None
        e[i] = (-pos - r.choice([1, 2, 1000]), e[i][1])
        return "external copy before the start", put("ext", b"".join(be(D.to_sm(a)) for a, _ in e) + b"".join(be(b) for _, b in e)), True
    if k == "int-range" and d.int_copies:
        i = r.randrange(len(d.int_copies))
        e = list(d.int_copies)
        e[i] = (e[i][0], e[i][1] + r.choice([1, 2, 100000, 0xffffffff - e[i][1]]))
        return "internal copy past the internal data", put("int", b"".join(be(a) for a, _ in e) + b"".join(be(b) for _, b in e)), True
    if k == "int-data" and d.int_data:
        n = r.randrange(len(d.int_data))
        g = [list(x) for x in fs]
        g[ix["int_data_len"]][1] = be8(n) if d.version == 3 else be(n)
        g[ix["int_data"]][1] = d.int_data[:n]
        return "internal data shorter than its copies", d.encode(helper, b"".join(x for _, x in g)), True
    if k == "ext-consume" and d.int_copies:
        i = r.randrange(len(d.int_copies))
        e = list(d.int_copies)
        e[i] = (e[i][0] + r.choice([1, 2, 0x7fffffff]), e[i][1])
        return "more external copies consumed than exist", put("int", b"".join(be(a) for a, _ in e) + b"".join(be(b) for _, b in e)), False
    if k == "inner-add" and d.rpmonly:
        g = [list(x) for x in fs]
        a = r.randbytes(r.choice([1, 8, 50]))
        g[ix["add_len"]][1], g[ix["add"]][1] = be(len(a)), a
        return "inner add block", d.encode(helper, b"".join(x for _, x in g)), True
    if k == "hdr-len" and d.rpmonly:
        n = r.choice([0, 0, d.tgt_header_len + sum(b for _, b in d.int_copies) + sum(b for _, b in d.ext_copies) + r.choice([1, 100000])])
        return "target header of %s bytes" % (n or "no"), put("hdr_len", be(n)), n == 0
    if k == "stream":
        i = len(enc) - zlen + r.randrange(zlen)
        b = enc[:i] + bytes([enc[i] ^ (1 << r.randrange(8))]) + enc[i + 1:]
        try:
            c, s, tail = R.decompress(helper, b[len(enc) - zlen:])
            if s[:3] == b"DLT" or tail:
                return None
        except BAD:
            pass
        return "compressed stream corrupt at %d" % i, b, True
    if k == "frame":
        if d.comp != "zstd":
            return None
        f = helper.call("zstdx:1:%d:1" % r.randrange(4), r.randbytes(r.choice([0, 5, 300])))
        n = r.randrange(1, len(f))
        b = enc[len(enc) - zlen:] + f[:n]
        return "%d of the %d bytes of another frame" % (n, len(f)), enc[:len(enc) - zlen] + b, True
    if k == "stream-cut":
        s = b"".join(x for _, x in fs)
        n = r.randrange(len(s))
        return "stream of %d instead of %d bytes" % (n, len(s)), d.encode(helper, s[:n]), True
    return None


def cpio_mutant(r, cpio):
    """(label, bytes) of a malformed cpio archive."""
    ents = []
    p = 0
    while True:
        fs, ns = int(cpio[p + 54:p + 62], 16), int(cpio[p + 94:p + 102], 16)
        ents.append((p, fs, ns))
        if cpio[p + 110:p + 120] == b"TRAILER!!!":
            break
        p += 110 + ns
        p += -p % 4
        p += fs + -fs % 4
    p, fs, ns = r.choice(ents)
    k = r.choice(["magic", "hex", "cut", "no-trailer", "namesize", "filesize", "nul"])
    put = lambda off, b: cpio[:p + off] + b + cpio[p + off + len(b):]
    if k == "magic":
        i = r.randrange(6)
        return "cpio magic", put(i, bytes([cpio[p + i] ^ r.randrange(1, 128)]))
    if k == "hex":
        off = r.choice([54, 94]) + r.randrange(8)
        return "cpio digit", put(off, r.choice([b"g", b" ", b"\0", b"-", b"x", b"\xff"]))
    if k == "cut":
        n = r.choice([0, 1, 109, 110, ents[-1][0] + 60, r.randrange(ents[-1][0] + 110)])
        return "cpio cut to %d" % n, cpio[:n]
    if k == "no-trailer":
        return "no trailer", cpio[:ents[-1][0]]
    if k == "namesize":
        return "cpio name size", put(94, r.choice([b"00000000", b"ffffffff", b"7fffffff", b"%08x" % (len(cpio) + 5)]))
    if k == "filesize":
        if p == ents[-1][0]:
            return None
        return "cpio file size", put(54, r.choice([b"ffffffff", b"7fffffff", b"%08x" % (len(cpio) + 5)]))
    return None


def rpm_mutant(r, rpm, b, helper):
    """(label, bytes, types for which making must fail as (old package: standard, rpm-only; new package: standard, rpm-only))."""
    p = R.RpmParts(b)
    all4 = (True, True, True, True)
    unc = p.comp() in ("", "none") if rpm.comp != "none" else True
    k = r.choice(["cut", "cut", "cut-end", "magic", "payload", "payload", "cpio", "cpio", "cpio", "empty", "frame", "files", "files",
                  "sigmd5"])
    if k == "frame":                                   # a second zstd frame begins and is cut
        if rpm.comp != "zstd" or not p.payload:
            return None
        f = helper.call("zstdx:1:%d:1" % r.randrange(4), r.randbytes(r.choice([0, 5, 300])))
        n = r.randrange(1, len(f))
        return "%d of the %d bytes of another frame" % (n, len(f)), b + f[:n], all4
    if k == "files":                                   # the lists of the files' properties do not fit together
        tags = rpm.tags()
        if R.T["BASENAMES"] not in tags:
            return None
        o = copy.deepcopy(rpm)
        n = r.choice([x for x in PERFILE if R.T[x] in tags])
        typ, val = tags[R.T[n]]
        if n == "DIRINDEXES" and r.random() < 0.6:
            val = list(val)
            val[r.randrange(len(val))] = len(tags[R.T["DIRNAMES"]][1]) + r.choice([0, 0, 0, 1, 1000])
            lab = "directory index past the end"
        elif r.random() < 0.5 and len(val) > 1:
            val, lab = val[:-1], "one too few of " + n
        else:
            val, lab = val + val[-1:], "one too many of " + n
        o.extra = dict(o.extra or {})
        o.extra[R.T[n]] = (typ, val)
        return lab, o.build(helper), (True, False, False, False)
    if k == "sigmd5":
        o = copy.deepcopy(rpm)
        md5 = p.sig[R.SIG_MD5][3][:16] if R.SIG_MD5 in p.sig else r.randbytes(16)
        o.sig_extra = {R.SIG_MD5: (R.BIN, (md5 + r.randbytes(16))[:r.choice([1, 8, 15, 17, 20, 32])])}
        return "signature digest of another length", o.build(helper), (False, False, False, False)
    if k == "empty":
        return "empty file", b"", all4
    if k == "cut":
        n = r.choice([0, 3, 4, 95, 96, p.sig_end - 1, p.hdr_start, p.hdr_end - 1, p.hdr_end, p.hdr_end + 3, r.randrange(p.hdr_end),
                      p.hdr_end + r.randrange(max(1, len(b) - p.hdr_end))])
        inpay = n > p.hdr_end + 7
        if inpay and not unc:
            try:
                R.decompress(helper, b[p.hdr_end:n])
                return None                            # between two frames
            except BAD:
                pass
        return "cut to %d of %d" % (n, len(b)), b[:n], (True, not (unc and inpay), not (unc and inpay), not (unc and inpay))
    if k == "cut-end" and len(p.payload) > 20:
        n = r.randrange(1, 10)
        if unc:
            return None
        return "last %d bytes missing" % n, b[:-n], all4
    if k == "magic":
        i = r.choice([0, 1, 2, 3, 96, 97, 98, p.hdr_start, p.hdr_start + 1, p.hdr_start + 2])
        return "magic at %d" % i, b[:i] + bytes([b[i] ^ r.randrange(1, 256)]) + b[i + 1:], all4
    if k == "payload" and p.payload and not unc:
        i = p.hdr_end + r.randrange(len(p.payload))
        c = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        try:
            a, s, tail = R.decompress(helper, c[p.hdr_end:])
            if a == "none":
                return None
            return None
        except BAD:
            return "payload corrupt at %d" % i, c, all4
    if k == "cpio":
        m = cpio_mutant(r, R.build_cpio(rpm.files, rpm.order))
        if m is None:
            return None
        pay = R.compress(helper, rpm.comp, rpm.level, m[1])
        if rpm.comp == "none" and len(pay) < 8:
            return None
        return m[0], b[:p.hdr_end] + pay, (True, False, False, False)
    return None
