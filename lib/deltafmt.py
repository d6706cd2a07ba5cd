"""Independent model of the DeltaRPM format: decoder, encoder, interpreter and the altered-cpio/sequence model.

Written from the format, sharing no code with the library. Everything here raises FormatError on malformed input."""
import hashlib, os, random, struct, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rpmgen as R
from rpmgen import T

ALGO = {0: "none", 1: "gzip", 2: "bzip2", 3: "gzip", 4: "bzip2", 5: "lzma", 6: "xz", 7: "zstd"}
ALGO_ENC = {"none": 0, "gzip": 1, "bzip2": 2, "lzma": 5, "xz": 6, "zstd": 7}
API_COMP = {"none": 0, "gzip": 1, "bzip2": 2, "lzma": 3, "xz": 4, "lzip": 5, "zstd": 6}
API_NAME = {v: k for k, v in API_COMP.items()}
DEFLEVEL = {"gzip": 9, "bzip2": 9, "lzma": 2, "xz": 3, "zstd": 19, "none": 0, "lzip": 6}


class FormatError(Exception):
    pass


def sm(v):
    """sign-magnitude 32 bit -> int"""
    return -(v & 0x7fffffff) if v & 0x80000000 else v


def to_sm(v):
    return (0x80000000 | -v) if v < 0 else v


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n > len(self.b) - self.p:
            raise FormatError("short: want %d have %d at %d" % (n, len(self.b) - self.p, self.p))
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u32(self):
        return struct.unpack(">I", self.take(4))[0]

    def u64(self):
        return struct.unpack(">Q", self.take(8))[0]

    def u32s(self, n):
        return list(struct.unpack(">%dI" % n, self.take(4 * n)))


class Delta:
    FIELDS = ("rpmonly version src_nevr sequence tgt_md5 tgt_size tgt_comp tgt_level tgt_comp_param tgt_header_len offadj "
              "leadsig payload_fmt_off int_copies ext_copies ext_len add_data int_data").split()

    def __init__(self, **kw):
        self.rpmonly = False
        self.style = None          # seed: the data is compressed as rpmgen.restyle() does
        self.version = 3
        self.src_nevr = ""
        self.sequence = b"\0" * 16
        self.tgt_md5 = b"\0" * 16
        self.tgt_size = 0
        self.tgt_comp, self.tgt_level = "gzip", 9
        self.tgt_algo_code = None
        self.tgt_comp_param = b""
        self.tgt_header_len = 0
        self.offadj = []
        self.leadsig = b""
        self.payload_fmt_off = 0
        self.int_copies, self.ext_copies = [], []
        self.ext_len = 0
        self.add_data = b""
        self.int_data = b""
        self.comp, self.level = "gzip", 9
        # standard
        self.lead, self.header = b"", b""
        # rpm-only
        self.tgt_nevr = ""
        self.__dict__.update(kw)

    # ---- encode ------------------------------------------------------------------------------------------------
    def stream(self):
        be = lambda v: struct.pack(">I", v & 0xffffffff)
        o = [b"DLT%d" % self.version]
        n = self.src_nevr if isinstance(self.src_nevr, bytes) else self.src_nevr.encode("latin-1")
        o += [be(len(n) + 1), n + b"\0", be(len(self.sequence)), self.sequence, self.tgt_md5]
        if self.version >= 2:
            code = self.tgt_algo_code if self.tgt_algo_code is not None else ALGO_ENC[self.tgt_comp]
            o += [be(self.tgt_size), be(code | self.tgt_level << 8), be(len(self.tgt_comp_param)), self.tgt_comp_param]
        if self.version >= 3:
            o += [be(self.tgt_header_len), be(len(self.offadj))]
            o += [be(a) for a, _ in self.offadj] + [be(to_sm(b)) for _, b in self.offadj]
        o += [be(len(self.leadsig)), self.leadsig, be(self.payload_fmt_off), be(len(self.int_copies)),
              be(len(self.ext_copies))]
        o += [be(a) for a, _ in self.int_copies] + [be(b) for _, b in self.int_copies]
        o += [be(to_sm(a)) for a, _ in self.ext_copies] + [be(b) for _, b in self.ext_copies]
        o += [struct.pack(">Q", self.ext_len) if self.version == 3 else be(self.ext_len)]
        o += [be(0)] if self.rpmonly else [be(len(self.add_data)), self.add_data]
        o += [struct.pack(">Q", len(self.int_data)) if self.version == 3 else be(len(self.int_data)), self.int_data]
        return b"".join(o)

    def front(self, body_len_md5=None):
        be = lambda v: struct.pack(">I", v)
        if self.rpmonly:
            n = self.tgt_nevr.encode("latin-1") + b"\0"
            return b"drpmDLT3" + be(len(n)) + n + be(len(self.add_data)) + self.add_data
        return None

    def encode(self, helper, stream=None):
        s = self.stream() if stream is None else stream
        z = R.compress(helper, self.comp, self.level, s) if self.style is None else \
            R.restyle(random.Random(self.style), helper, self.comp, s)
        if self.rpmonly:
            return self.front() + z
        body = self.header + z
        sg = R.build_header({R.SIG_SIZE: (R.INT32, [len(body)]), R.SIG_MD5: (R.BIN, hashlib.md5(body).digest())}, 62)
        return self.lead + sg + b"\0" * (-len(sg) % 8) + body

    # ---- decode ------------------------------------------------------------------------------------------------
    @staticmethod
    def decode(data, helper):
        d = Delta()
        if data[:4] == b"drpm":
            d.rpmonly = True
            r = Rd(data)
            r.take(4)
            if r.take(4) != b"DLT3":
                raise FormatError("rpm-only magic")
            n = r.take(r.u32())
            if not n.endswith(b"\0") or b"\0" in n[:-1]:
                raise FormatError("target nevr not one NUL terminated string")
            d.tgt_nevr = n[:-1].decode("latin-1")
            d.add_data = r.take(r.u32())
            z = data[r.p:]
        else:
            try:
                p = R.RpmParts(data)
            except (ValueError, struct.error) as e:
                raise FormatError("delta header: %s" % e)
            d.lead, d.header = data[:96], p.header
            d.parts = p
            d.tgt_nevr = p.nevr()
            z = p.payload
            sz, md = R.hdr_u32(p.sig, R.SIG_SIZE), p.sig.get(R.SIG_MD5)
            if sz != len(p.header) + len(p.payload):
                raise FormatError("delta signature size")
            if md is None or md[3][:16] != hashlib.md5(p.header + p.payload).digest():
                raise FormatError("delta signature md5")
            if R.hdr_str(p.hdr, T["PAYLOADFORMAT"]) != b"drpm":
                raise FormatError("payload format of the delta is not drpm")
        try:
            d.comp, s, tail = R.decompress(helper, z)
        except (ValueError, RuntimeError, EOFError, R.zlib.error, R.lzma.LZMAError, OSError) as e:
            raise FormatError("delta stream: %s" % e)
        if tail:
            raise FormatError("%d bytes after the compressed stream" % tail)
        r = Rd(s)
        m = r.take(4)
        if m[:3] != b"DLT" or m[3:] not in (b"1", b"2", b"3"):
            raise FormatError("version magic %r" % m)
        d.version = int(m[3:])
        n = r.take(r.u32())
        if not n.endswith(b"\0") or b"\0" in n[:-1]:
            raise FormatError("source nevr not one NUL terminated string")
        d.src_nevr = n[:-1].decode("latin-1")
        d.sequence = r.take(r.u32())
        d.tgt_md5 = r.take(16)
        if d.version >= 2:
            d.tgt_size = r.u32()
            c = r.u32()
            if c & 255 not in ALGO:
                raise FormatError("target compression %d" % c)
            d.tgt_algo_code = c & 255
            d.tgt_comp, d.tgt_level = ALGO[c & 255], c >> 8
            d.tgt_comp_param = r.take(r.u32())
        elif not d.rpmonly:
            d.tgt_comp, d.tgt_level = d.parts.comp() or "none", 0
        if d.version >= 3:
            d.tgt_header_len = r.u32()
            n = r.u32()
            a = r.u32s(n)
            b = [sm(v) for v in r.u32s(n)]
            d.offadj = list(zip(a, b))
        d.leadsig = r.take(r.u32())
        d.payload_fmt_off = r.u32()
        ni, ne = r.u32(), r.u32()
        a, b = r.u32s(ni), r.u32s(ni)
        d.int_copies = list(zip(a, b))
        a, b = [sm(v) for v in r.u32s(ne)], r.u32s(ne)
        d.ext_copies = list(zip(a, b))
        d.ext_len = r.u64() if d.version == 3 else r.u32()
        ad = r.take(r.u32())
        if d.rpmonly and ad:
            raise FormatError("inner add block in an rpm-only delta")
        if not d.rpmonly:
            d.add_data = ad
        d.int_data = r.take(r.u64() if d.version == 3 else r.u32())
        if r.p != len(s):
            raise FormatError("%d bytes after the delta" % (len(s) - r.p))
        return d

    # ---- interpret ---------------------------------------------------------------------------------------------
    def new_data(self, ext, helper):
        """The uncompressed new data (header + cpio for rpm-only, cpio otherwise) from the external data."""
        if len(ext) < self.ext_len:
            raise FormatError("external data %d < %d" % (len(ext), self.ext_len))
        add = R.decompress(helper, self.add_data)[1] if self.add_data else None
        out = bytearray()
        eo, ei, ip, ap = 0, 0, 0, 0
        for ne, il in self.int_copies:
            for _ in range(ne):
                if ei >= len(self.ext_copies):
                    raise FormatError("more external copies announced than there are")
                adj, ln = self.ext_copies[ei]
                ei += 1
                eo += adj
                if eo < 0 or eo + ln > self.ext_len:
                    raise FormatError("external copy out of range")
                seg = ext[eo:eo + ln]
                if add is not None:
                    if ap + ln > len(add):
                        raise FormatError("add block too short")
                    seg = bytes([(x + y) & 255 for x, y in zip(seg, add[ap:ap + ln])])
                    ap += ln
                out += seg
                eo += ln
            if ip + il > len(self.int_data):
                raise FormatError("internal copy out of range")
            out += self.int_data[ip:ip + il]
            ip += il
        self.used = dict(ext=ei, int=ip, add=ap, addlen=None if add is None else len(add))
        return bytes(out)


def patched_header(header, fmt):
    """Header bytes with the payload format string replaced in place."""
    ents, end = R.parse_header(header)
    typ, cnt, off, raw = ents[T["PAYLOADFORMAT"]]
    il = struct.unpack_from(">I", header, 8)[0]
    pos = 16 + il * 16 + off
    return header[:pos] + fmt + header[pos + 4:]


def payload_fmt_off(header):
    return R.parse_header(header)[0][T["PAYLOADFORMAT"]][2]


# ---- file list, altered cpio, sequence ---------------------------------------------------------------------------
class FI:
    pass


def file_list(parts):
    h = parts.hdr

    def strs(tag):
        e = h.get(tag)
        return [] if e is None else e[3].split(b"\0", e[1])[:e[1]]

    def u32s(tag):
        e = h.get(tag)
        return [] if e is None else list(struct.unpack_from(">%dI" % e[1], e[3]))

    def u16s(tag):
        e = h.get(tag)
        return [] if e is None else list(struct.unpack_from(">%dH" % e[1], e[3]))
    if T["BASENAMES"] in h:
        dn, di = strs(T["DIRNAMES"]), u32s(T["DIRINDEXES"])
        names = [dn[i] + b for i, b in zip(di, strs(T["BASENAMES"]))]
    else:
        names = []      # pre-4.0 headers (OLDFILENAMES): the library sees no file list; every entry is left out
    sizes, modes, rdevs, flags, ver = (u32s(T["FILESIZES"]), u16s(T["FILEMODES"]), u16s(T["FILERDEVS"]),
                                       u32s(T["FILEFLAGS"]), u32s(T["FILEVERIFYFLAGS"]))
    dig, lnk, col = strs(T["FILEMD5S"]), strs(T["FILELINKTOS"]), u32s(T["FILECOLORS"])
    out = []
    for i, n in enumerate(names):
        f = FI()
        f.name, f.size, f.mode, f.rdev, f.flags, f.verify = n, sizes[i], modes[i], rdevs[i], flags[i], ver[i]
        f.digest, f.linkto, f.color = dig[i], lnk[i], (col[i] if col else None)
        f.key = n[1:] if n[:1] == b"/" else n
        t = f.mode & 0o170000
        f.isreg, f.islnk, f.isdev = t == R.S_IFREG, t == R.S_IFLNK, t in (R.S_IFCHR, R.S_IFBLK)
        f.esize = f.size if f.isreg else len(f.linkto) if f.islnk else 0
        f.erdev = f.rdev if f.isdev else 0
        out.append(f)
    return out


def parse_cpio(b):
    """Yields (offset, name, filesize, data, end). Raises FormatError without a trailer."""
    p, out = 0, []
    while True:
        h = b[p:p + 110]
        if len(h) < 110 or h[:6] != b"070701":
            raise FormatError("cpio header at %d" % p)
        v = [int(h[6 + 8 * i:14 + 8 * i], 16) for i in range(13)]
        fs, ns = v[6], v[11]
        q = p + 110 + ns
        if q > len(b) or ns == 0:
            raise FormatError("cpio name at %d" % p)
        name = b[p + 110:q].split(b"\0")[0]
        if name == b"TRAILER!!!":
            return out
        q += -q % 4 if p % 4 == 0 else -(110 + ns) % 4
        data = b[q:q + fs]
        if len(data) < fs:
            raise FormatError("cpio data at %d" % p)
        e = q + fs + (-fs % 4)
        if e > len(b):
            raise FormatError("cpio padding at %d" % p)
        out.append((p, name, fs, data, e))
        p = e


def kept_files(parts, cpio, unpatched=frozenset()):
    """[(header index, cpio offset, data)] of the entries a standard delta keeps, in archive order."""
    fl = file_list(parts)
    byname = {}
    for i, f in enumerate(fl):
        byname.setdefault(f.key, i)
    has_colors = T["FILECOLORS"] in parts.hdr
    out, seen = [], set()
    for off, name, fs, data, _ in parse_cpio(cpio):
        k = name[2:] if name[:2] == b"./" else name
        i = byname.get(k)
        if i is None or i in seen:
            continue
        f = fl[i]
        if f.isreg:
            if k in unpatched or fs != f.size or f.flags & (1 | 8 | 64):
                continue
            if not f.verify & 1 or not f.verify & 2:
                continue
            if has_colors and f.color & 3 and not any(x in k for x in (b"lib/", b"lib32/", b"lib64/")):
                continue
        seen.add(i)
        out.append((i, off, data))
    return fl, out


def entry(f, data):
    nm = b"./" + f.key
    rd = ((f.rdev >> 8) & 0xfff, (f.rdev & 0xff)) if f.isdev else (0, 0)
    h = R.cpio_entry(nm, f.mode, b"", ino=0, nlink=1, mtime=0, filesize=f.esize, rdev=rd)
    c = f.linkto if f.islnk else (data if f.isreg else b"")
    return h, c + R.pad4(len(c))


TRAILER = R.cpio_entry(b"TRAILER!!!", 0, b"", ino=0, nlink=1)


def altered_cpio(fl, kept):
    """Returns (altered cpio bytes, [(altered offset, original offset)])."""
    o, offs, p = [], [], 0
    for i, off, data in kept:
        h, c = entry(fl[i], data)
        offs.append((p, off))
        o += [h, c]
        p += len(h) + len(c)
    o.append(TRAILER)
    return b"".join(o), offs


def seq_md5(fl, idx, algo):
    m = hashlib.md5()
    for i in idx:
        f = fl[i]
        m.update(f.key + b"\0" + struct.pack(">III", f.mode, f.esize, f.erdev))
        if f.islnk:
            m.update(f.linkto + b"\0")
        elif f.isreg and f.esize > 0:
            m.update(bytes.fromhex(f.digest.decode("ascii")))
    return m.digest()


def digest_algo(parts):
    v = R.hdr_u32(parts.hdr, T["FILEDIGESTALGO"])
    return "md5" if v in (None, 1) else "sha256"


def seq_decode(seq):
    """Indices named by the compressed file order (after the 16 byte MD5)."""
    nib = []
    for b in seq[16:]:
        nib += [b >> 4, b & 15]
    out, vals, cur, sh = [], [], 0, 0
    for n in nib:
        cur |= (n & 7) << sh
        if n & 8:
            sh += 3
            continue
        vals.append(cur)
        cur, sh = 0, 0
    if sh:
        raise FormatError("sequence ends inside a number")
    if len(nib) and vals and vals[-1] == 0:
        vals = vals[:-1] + [None]
    pos, run, i = 0, True, 0
    while i < len(vals):
        v = vals[i]
        i += 1
        if v is None:
            break  # a filler nibble
        if v == 0:
            if i >= len(vals) or vals[i] is None and i < len(vals) - 1:
                raise FormatError("dangling jump")
            pos = vals[i] or 0
            i += 1
            run = True
            continue
        if not run:
            pos += v
            run = True
            continue
        if v > 1 << 22 or pos > 1 << 22:
            raise FormatError("names files no package has")
        out += range(pos, pos + v)
        pos += v
        run = False
    return out


def seq_encode(idx):
    nib = []

    def num(v):
        while True:
            n = v & 7
            v >>= 3
            nib.append(n | (8 if v else 0))
            if not v:
                break
    runs = []
    for i in idx:
        if runs and i == runs[-1][0] + runs[-1][1]:
            runs[-1][1] += 1
        else:
            runs.append([i, 1])
    pos = 0
    for k, (s, n) in enumerate(runs):
        if k == 0:
            if s != 0:
                num(0)
                num(s)
        elif s > pos:
            num(s - pos)
        else:
            num(0)
            num(s)
        num(n)
        pos = s + n
    if len(nib) % 2:
        nib.append(0)
    return bytes(nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2))


def full_sequence(fl, idx, algo):
    return seq_md5(fl, idx, algo) + seq_encode(idx)


def offadj_ok(offadj, offs):
    """v3 invariant: adjustments at or before an altered offset sum to original - altered."""
    cum, j, s = 0, 0, 0
    pts = []
    for a, b in offadj:
        cum += a
        pts.append((cum, b))
    for alt, orig in offs:
        while j < len(pts) and pts[j][0] <= alt:
            s += pts[j][1]
            j += 1
        if s != orig - alt:
            return "entry at altered offset %d: adjustment %d, expected %d" % (alt, s, orig - alt)
    return None


def uncompressed(parts, helper):
    c = parts.comp()
    if c in ("none", ""):
        return parts.payload
    algo, out, _ = R.decompress(helper, parts.payload)
    return out


def ext_data(old, rpmonly, helper, unpatched=frozenset(), idx=None):
    """External data as the format defines it. idx: explicit kept header indices (in archive order)."""
    cpio = uncompressed(old, helper)
    if rpmonly:
        return old.header + cpio, None, None
    fl, kept = kept_files(old, cpio, unpatched)
    if idx is not None:
        s = set(idx)
        kept = [k for k in kept if k[0] in s]
    alt, offs = altered_cpio(fl, kept)
    return alt, fl, (kept, offs)


def nodiff(d):
    return d.rpmonly and d.tgt_comp == "none" and not d.int_copies and not d.ext_copies


def reference_apply(d, old_bytes, helper):
    """What applying d to the old package must write (no check of sequence or digests)."""
    old = R.RpmParts(old_bytes)
    if nodiff(d):
        return d.leadsig + old.header + old.payload
    if d.rpmonly:
        ext = old.header + uncompressed(old, helper)
        new = d.new_data(ext, helper)
        if len(new) < d.tgt_header_len:
            raise FormatError("new data shorter than the header")
        head, data = new[:d.tgt_header_len], new[d.tgt_header_len:]
    else:
        cpio = uncompressed(old, helper)
        fl, kept = kept_files(old, cpio)
        idx = seq_decode(d.sequence)
        bykey = {k[0]: k for k in kept}
        alt, _ = altered_cpio(fl, [bykey[i] for i in idx])
        data = d.new_data(alt, helper)
        head = patched_header(d.header, b"cpio") + data[:d.tgt_header_len]
        data = data[d.tgt_header_len:]
    lvl = d.tgt_level or DEFLEVEL[d.tgt_comp]
    return d.leadsig + head + R.compress(helper, d.tgt_comp, lvl, data)
