"""Writer of canonical RPM packages (lead + signature + header + payload), independent of librpm.

The header layout is the one rpmbuild writes (immutable region, tags sorted, natural alignment), the cpio payload is
"newc", and the payload is compressed either by Python's zlib/bz2/lzma or by librpmio itself through `comphelper`
(the latter is byte-for-byte what rpmbuild produces).
"""
import bz2, hashlib, lzma, os, random, struct, subprocess, zlib

INT8, INT16, INT32, STRING, BIN, SARRAY, I18N = 2, 3, 4, 6, 7, 8, 9
ALIGN = {INT16: 2, INT32: 4}
HDR_MAGIC = bytes([0x8e, 0xad, 0xe8, 0x01, 0, 0, 0, 0])

T = dict(NAME=1000, VERSION=1001, RELEASE=1002, EPOCH=1003, SUMMARY=1004, DESCRIPTION=1005, BUILDTIME=1006,
         BUILDHOST=1007, SIZE=1009, LICENSE=1014, GROUP=1016, OS=1021, ARCH=1022, OLDFILENAMES=1027, FILESIZES=1028,
         FILEMODES=1030, FILERDEVS=1033, FILEMTIMES=1034, FILEMD5S=1035, FILELINKTOS=1036, FILEFLAGS=1037,
         FILEUSERNAME=1039, FILEGROUPNAME=1040, SOURCERPM=1044, FILEVERIFYFLAGS=1045, PROVIDENAME=1047,
         RPMVERSION=1064, FILEDEVICES=1095, FILEINODES=1096, FILELANGS=1097, PROVIDEFLAGS=1112, PROVIDEVERSION=1113,
         DIRINDEXES=1116, BASENAMES=1117, DIRNAMES=1118, PAYLOADFORMAT=1124, PAYLOADCOMPRESSOR=1125,
         PAYLOADFLAGS=1126, FILECOLORS=1140, FILEDIGESTALGO=5011, I18NTABLE=100)
SIG_SIZE, SIG_MD5, SIG_SHA1, SIG_RESERVED = 1000, 1004, 269, 1008

S_IFREG, S_IFDIR, S_IFLNK, S_IFCHR, S_IFBLK, S_IFIFO = 0o100000, 0o40000, 0o120000, 0o20000, 0o60000, 0o10000
F_CONFIG, F_DOC, F_MISSINGOK, F_NOREPLACE, F_GHOST = 1, 2, 8, 16, 64
VERIFY_ALL = 0xffffffff


def enc_value(typ, val):
    if typ == INT32:
        return struct.pack(">%dI" % len(val), *[v & 0xffffffff for v in val]), len(val)
    if typ == INT16:
        return struct.pack(">%dH" % len(val), *val), len(val)
    if typ == INT8:
        return bytes(val), len(val)
    if typ == STRING:
        return val + b"\0", 1
    if typ in (SARRAY, I18N):
        return b"".join(v + b"\0" for v in val), len(val)
    if typ == BIN:
        return val, len(val)
    raise ValueError(typ)


def build_header(tags, region, raw_counts=None):
    """tags: dict tag -> (type, value). Returns magic + il + dl + index + store, with the region first."""
    idx, store = [], b""
    for tag in sorted(tags):
        typ, val = tags[tag]
        data, cnt = enc_value(typ, val)
        if raw_counts and tag in raw_counts:
            cnt = raw_counts[tag]
        al = ALIGN.get(typ, 1)
        store += b"\0" * (-len(store) % al)
        idx.append((tag, typ, len(store), cnt))
        store += data
    if region is not None:
        il = len(idx) + 1
        off = len(store)
        store += struct.pack(">IIiI", region, BIN, -(il * 16), 16)
        idx.insert(0, (region, BIN, off, 16))
    out = HDR_MAGIC + struct.pack(">II", len(idx), len(store))
    out += b"".join(struct.pack(">IIII", *e) for e in idx) + store
    return out


def parse_header(buf, pos=0):
    """Independent reader. Returns (dict tag -> (type, count, raw bytes to the end of the store), end position)."""
    if buf[pos:pos + 4] != HDR_MAGIC[:4]:
        raise ValueError("bad header magic")
    il, dl = struct.unpack_from(">II", buf, pos + 8)
    if len(buf) < pos + 16 + il * 16 + dl:
        raise ValueError("short header")
    ents = {}
    base = pos + 16 + il * 16
    for i in range(il):
        tag, typ, off, cnt = struct.unpack_from(">IIII", buf, pos + 16 + i * 16)
        ents[tag] = (typ, cnt, off, buf[base + off:base + dl])
    return ents, base + dl


def hdr_str(ents, tag):
    e = ents.get(tag)
    return None if e is None else e[3].split(b"\0", 1)[0]


def hdr_u32(ents, tag, i=0):
    e = ents.get(tag)
    return None if e is None else struct.unpack_from(">I", e[3], 4 * i)[0]


class RpmParts:
    """Splits RPM bytes into lead, signature, header and payload, with offsets."""

    def __init__(self, data):
        self.data = data
        if data[:4] != b"\xed\xab\xee\xdb":
            raise ValueError("not an RPM")
        self.sig, e = parse_header(data, 96)
        self.sig_end = e
        e += -e % 8
        self.hdr_start = e
        self.hdr, self.hdr_end = parse_header(data, e)
        self.leadsig = data[:self.hdr_start]
        self.header = data[self.hdr_start:self.hdr_end]
        self.payload = data[self.hdr_end:]

    def nevr(self):
        g = lambda t: (hdr_str(self.hdr, T[t]) or b"").decode("latin-1")
        ep = hdr_u32(self.hdr, T["EPOCH"])
        return "%s-%s%s-%s" % (g("NAME"), "" if ep is None else "%d:" % ep, g("VERSION"), g("RELEASE"))

    def comp(self):
        return (hdr_str(self.hdr, T["PAYLOADCOMPRESSOR"]) or b"").decode()

    def level(self):
        return (hdr_str(self.hdr, T["PAYLOADFLAGS"]) or b"").decode()


class File:
    def __init__(self, name, mode=S_IFREG | 0o644, data=b"", linkto=b"", flags=0, verify=VERIFY_ALL, rdev=0, color=0,
                 in_cpio=True, in_header=True, cpio_size=None, hdr_size=None, digest=None, cpio_name=None,
                 cpio_data=None, mtime=1500000000):
        self.name, self.mode, self.data, self.linkto = name, mode, data, linkto
        self.flags, self.verify, self.rdev, self.color = flags, verify, rdev, color
        self.in_cpio, self.in_header = in_cpio, in_header
        self.cpio_size, self.hdr_size, self.digest = cpio_size, hdr_size, digest
        self.cpio_name, self.cpio_data, self.mtime = cpio_name, cpio_data, mtime
        self.cpio_fields = {}

    def isreg(self):
        return (self.mode & 0o170000) == S_IFREG

    def islnk(self):
        return (self.mode & 0o170000) == S_IFLNK

    def isdev(self):
        return (self.mode & 0o170000) in (S_IFCHR, S_IFBLK)

    def size(self):
        if self.hdr_size is not None:
            return self.hdr_size
        if self.isreg():
            return len(self.data)
        if self.islnk():
            return len(self.linkto)
        return 4096 if (self.mode & 0o170000) == S_IFDIR else 0

    def payload(self):
        if self.cpio_data is not None:
            return self.cpio_data
        if self.isreg():
            return self.data
        if self.islnk():
            return self.linkto
        return b""


def pad4(n):
    return b"\0" * (-n % 4)


def cpio_entry(name, mode, data, ino=1, nlink=1, mtime=0, rdev=(0, 0), filesize=None, dev=(0, 0), namesize=None,
               uid=0, gid=0, upper=False):
    fs = len(data) if filesize is None else filesize
    ns = len(name) + 1 if namesize is None else namesize
    h = b"070701" + b"".join(b"%08x" % v for v in (ino, mode, uid, gid, nlink, mtime, fs, dev[0], dev[1], rdev[0],
                                                     rdev[1], ns, 0))
    out = (h.upper() if upper else h) + name + b"\0"
    out += pad4(len(out))
    return out + data + pad4(len(data))


def build_cpio(files, order=None, trailer=True):
    out = []
    ino = 1
    for f in (files if order is None else order):
        if not f.in_cpio:
            continue
        nm = f.cpio_name if f.cpio_name is not None else b"." + f.name
        rd = (f.rdev >> 8, f.rdev & 0xff) if f.isdev() else (0, 0)
        out.append(cpio_entry(nm, f.mode, f.payload(), rdev=rd, filesize=f.cpio_size,
                              **{**dict(ino=ino, mtime=f.mtime, dev=(8, 1)), **f.cpio_fields}))
        ino += 1
    if trailer:
        out.append(cpio_entry(b"TRAILER!!!", 0, b"", ino=0))
    return b"".join(out)


class CompHelper:
    """Line protocol with harness/comphelper: compression as librpmio does it, plus lzip and zstd both ways."""

    def __init__(self, exe, tmpdir):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.a = os.path.join(tmpdir, "ch.%d.in" % os.getpid())
        self.b = os.path.join(tmpdir, "ch.%d.out" % os.getpid())

    def call(self, op, data):
        with open(self.a, "wb") as f:
            f.write(data)
        self.p.stdin.write(("%s %s %s\n" % (op, self.a, self.b)).encode())
        self.p.stdin.flush()
        r = self.p.stdout.readline().strip()
        if r != b"OK":
            raise RuntimeError("comphelper %s: %r" % (op, r))
        with open(self.b, "rb") as f:
            return f.read()

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        for x in (self.a, self.b):
            try:
                os.unlink(x)
            except OSError:
                pass


RPM_IO = {"gzip": "gzdio", "bzip2": "bzdio", "lzma": "lzdio", "xz": "xzdio", "zstd": "zstdio"}


def compress(helper, comp, level, data):
    if comp == "none":
        return data
    if comp == "lzip":
        return helper.call("lzip:%d" % level, data)
    return helper.call("rpmio:w%d.%s" % (level, RPM_IO[comp]), data)


def restyle(r, helper, comp, data):
    """The data compressed as this library would not do it: other block sizes, checks, flushes, headers, several frames."""
    if comp == "gzip":
        c = zlib.compressobj(r.choice([0, 1, 6, 9]), zlib.DEFLATED, -r.choice([9, 12, 15]), r.choice([1, 8, 9]), r.choice([0, 0, 1, 2, 3, 4]))
        fl = r.randrange(32)
        h = b"\x1f\x8b\x08" + bytes([fl]) + r.randbytes(4) + r.choice([b"\2\3", b"\4\0", b"\0\xff"])
        if fl & 4:
            x = r.randbytes(r.choice([0, 4, 300, 2000]))
            h += struct.pack("<H", len(x)) + x
        for bit in (8, 16):
            if fl & bit:
                h += bytes(r.choice(b"name.of cpio") for _ in range(r.choice([0, 9, 1100]))) + b"\0"
        if fl & 2:
            h += struct.pack("<H", zlib.crc32(h) & 0xffff)
        out, pos = [h], 0
        while pos < len(data):
            n = r.choice([1, 100, 1024, 5000, 100000, len(data)])
            out += [c.compress(data[pos:pos + n]), c.flush(r.choice([zlib.Z_NO_FLUSH, zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))]
            pos += n
            if len(out) > 200:
                out.append(c.compress(data[pos:]))
                break
        out += [c.flush(), struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)]
        return b"".join(out)
    if comp == "bzip2":
        return bz2.compress(data, r.randrange(1, 10))
    if comp == "xz":
        f = [{"id": lzma.FILTER_LZMA2, "preset": r.choice([0, 1, 3, 0 | lzma.PRESET_EXTREME]), "lc": r.choice([0, 3, 4]), "lp": 0,
              "pb": r.choice([0, 2, 4]), "dict_size": r.choice([4096, 65536, 1 << 20])}]
        if r.random() < 0.4:
            f.insert(0, r.choice([{"id": lzma.FILTER_DELTA, "dist": r.choice([1, 4, 256])}, {"id": lzma.FILTER_X86}, {"id": lzma.FILTER_ARM}]))
        return lzma.compress(data, lzma.FORMAT_XZ, r.choice([lzma.CHECK_NONE, lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256]), filters=f)
    if comp == "lzma":
        return lzma.compress(data, lzma.FORMAT_ALONE, filters=[{"id": lzma.FILTER_LZMA1, "preset": r.choice([0, 3]), "lc": 3, "lp": 0, "pb": 2,
                                                                "dict_size": 1 << r.choice([16, 17, 20, 23])}])
    if comp == "zstd":
        cuts = sorted(r.randrange(len(data) or 1) for _ in range(r.choice([0, 0, 1, 3, 20])))
        out = []                                       # the last frame holds data: cut anywhere, the whole is not well-formed
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            out.append(helper.call("zstdx:%d:%d:%d" % (r.choice([1, 3, 9]), r.randrange(32), r.randrange(1 << 30)), data[a:b]))
            if b < len(data) and r.random() < 0.2:     # a frame to be skipped
                x = r.randbytes(r.choice([0, 1, 1020, 3000]))
                out.append(struct.pack("<II", 0x184d2a50 + r.randrange(16), len(x)) + x)
        return b"".join(out)
    if comp == "lzip":
        cuts = sorted(r.randrange(len(data) or 1) for _ in range(r.choice([0, 1, 3])))
        return b"".join(compress(helper, "lzip", r.choice([0, 1, 4]), data[a:b]) for a, b in zip([0] + cuts, cuts + [len(data)]))
    return data


def decompress(helper, data):
    """Decompresses by magic, independently of the code under test. Returns (algorithm, bytes, unused tail length)."""
    if data[:2] == b"\x1f\x8b":
        d = zlib.decompressobj(31)
        out = d.decompress(data) + d.flush()
        if not d.eof:
            raise ValueError("truncated gzip")
        return "gzip", out, len(d.unused_data)
    if data[:3] == b"BZh":
        d = bz2.BZ2Decompressor()
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("truncated bzip2")
        return "bzip2", out, len(d.unused_data)
    if data[:6] == b"\xfd7zXZ\0":
        d = lzma.LZMADecompressor(lzma.FORMAT_XZ)
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("truncated xz")
        return "xz", out, len(d.unused_data)
    if data[:4] == b"LZIP":
        return "lzip", helper.call("unlzip", data), 0
    if data[:4] == b"\x28\xb5\x2f\xfd":
        return "zstd", helper.call("unzstd", data), 0
    if data[:3] == b"\x5d\0\0":
        d = lzma.LZMADecompressor(lzma.FORMAT_ALONE)
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("truncated lzma")
        return "lzma", out, len(d.unused_data)
    return "none", data, 0


class Rpm:
    def __init__(self, name=b"pkg", version=b"1.0", release=b"1", epoch=None, files=(), comp="gzip", level=9,
                 source=False, digest="sha256", arch=b"x86_64", order=None, dirnames=True, extra=None, summary=b"s",
                 description=b"d", sigpad=0, drop=(), colors=None, payload=None, payload_format=b"cpio",
                 payload_flags=None, reserved=True, raw_counts=None, cpio=None, sig_extra=None, sig_md5=True):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    style = None        # seed: the payload is compressed as restyle() does

    def tags(self):
        s = lambda v: (STRING, v)
        hf = [f for f in self.files if f.in_header]
        t = {T["I18NTABLE"]: (SARRAY, [b"C"]), T["NAME"]: s(self.name), T["VERSION"]: s(self.version),
             T["RELEASE"]: s(self.release), T["SUMMARY"]: (I18N, [self.summary]),
             T["DESCRIPTION"]: (I18N, [self.description]), T["BUILDTIME"]: (INT32, [1500000000]),
             T["BUILDHOST"]: s(b"localhost"), T["SIZE"]: (INT32, [sum(f.size() for f in hf if f.isreg())]),
             T["LICENSE"]: s(b"MIT"), T["GROUP"]: (I18N, [b"Unspecified"]), T["OS"]: s(b"linux"),
             T["ARCH"]: s(self.arch), T["RPMVERSION"]: s(b"4.18.2"),
             T["PROVIDENAME"]: (SARRAY, [self.name]), T["PROVIDEFLAGS"]: (INT32, [8]),
             T["PROVIDEVERSION"]: (SARRAY, [self.version + b"-" + self.release]),
             T["PAYLOADFORMAT"]: s(self.payload_format), T["PAYLOADCOMPRESSOR"]: s(self.comp.encode()),
             T["PAYLOADFLAGS"]: s(self.payload_flags if self.payload_flags is not None else b"%d" % self.level)}
        if self.comp == "none":
            del t[T["PAYLOADCOMPRESSOR"]]
            if self.payload_flags is None:
                t[T["PAYLOADFLAGS"]] = s(b"")
        if self.epoch is not None:
            t[T["EPOCH"]] = (INT32, [self.epoch])
        if not self.source:
            t[T["SOURCERPM"]] = s(self.name + b"-" + self.version + b"-" + self.release + b".src.rpm")
        if hf:
            if self.dirnames:
                dirs, di, bn = [], [], []
                for f in hf:
                    d, sep, b = f.name.rpartition(b"/")
                    d += sep
                    if d not in dirs:
                        dirs.append(d)
                    di.append(dirs.index(d))
                    bn.append(b)
                t[T["BASENAMES"]] = (SARRAY, bn)
                t[T["DIRNAMES"]] = (SARRAY, dirs)
                t[T["DIRINDEXES"]] = (INT32, di)
            else:
                t[T["OLDFILENAMES"]] = (SARRAY, [f.name for f in hf])
            hsh = hashlib.md5 if self.digest == "md5" else hashlib.sha256
            dig = [(f.digest if f.digest is not None else
                    (hsh(f.data).hexdigest().encode() if f.isreg() and not f.flags & F_GHOST else b"")) for f in hf]
            t[T["FILESIZES"]] = (INT32, [f.size() for f in hf])
            t[T["FILEMODES"]] = (INT16, [f.mode for f in hf])
            t[T["FILERDEVS"]] = (INT16, [f.rdev for f in hf])
            t[T["FILEMTIMES"]] = (INT32, [f.mtime for f in hf])
            t[T["FILEMD5S"]] = (SARRAY, dig)
            t[T["FILELINKTOS"]] = (SARRAY, [f.linkto for f in hf])
            t[T["FILEFLAGS"]] = (INT32, [f.flags for f in hf])
            t[T["FILEUSERNAME"]] = (SARRAY, [b"root"] * len(hf))
            t[T["FILEGROUPNAME"]] = (SARRAY, [b"root"] * len(hf))
            t[T["FILEVERIFYFLAGS"]] = (INT32, [f.verify for f in hf])
            t[T["FILEDEVICES"]] = (INT32, [1] * len(hf))
            t[T["FILEINODES"]] = (INT32, list(range(1, len(hf) + 1)))
            t[T["FILELANGS"]] = (SARRAY, [b""] * len(hf))
            if self.colors if self.colors is not None else any(f.color for f in hf):
                t[T["FILECOLORS"]] = (INT32, [f.color for f in hf])
            if self.digest == "sha256":
                t[T["FILEDIGESTALGO"]] = (INT32, [8])
        for k, v in (self.extra or {}).items():
            t[k] = v
        for k in self.drop:
            t.pop(k, None)
        return t

    def pack(self, helper, cpio):
        if self.style is not None:
            return restyle(random.Random(self.style), helper, self.comp, cpio)
        return compress(helper, self.comp, self.level, cpio)

    def build(self, helper):
        cpio = self.cpio if self.cpio is not None else build_cpio(self.files, self.order)
        payload = self.payload if self.payload is not None else self.pack(helper, cpio)
        hdr = build_header(self.tags(), 63, self.raw_counts)
        body = hdr + payload
        sig = {SIG_SIZE: (INT32, [len(body)])}
        if self.sig_md5:
            sig[SIG_MD5] = (BIN, hashlib.md5(body).digest())
        if self.reserved:
            sig[SIG_SHA1] = (STRING, hashlib.sha1(hdr).hexdigest().encode())
            sig[SIG_RESERVED] = (BIN, b"\0" * (32 + self.sigpad))
        if self.sig_extra:
            sig.update(self.sig_extra)
        sh = build_header(sig, 62)
        nvr = (self.name + b"-" + self.version + b"-" + self.release)[:65]
        lead = b"\xed\xab\xee\xdb\x03\x00" + struct.pack(">HH", 1 if self.source else 0, 1) + nvr.ljust(66, b"\0") + \
            struct.pack(">HH", 1, 5) + b"\0" * 16
        assert len(lead) == 96
        return lead + sh + b"\0" * (-len(sh) % 8) + body
