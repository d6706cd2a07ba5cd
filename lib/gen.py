"""Workload generator: random but well-formed packages, package pairs, options and deltas."""
import hashlib, os, random, struct, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rpmgen as R
from rpmgen import File, Rpm, T
import deltafmt as D

WORDS = [b"alpha", b"beta", b"gamma", b"delta", b"lib", b"conf", b"data", b"readme", b"main", b"util", b"index", b"x",
         b"core", b"test", b"doc", b"a-very-long-file-name-component-that-takes-some-room", b"\xc3\xa9t\xc3\xa9", b"sp ace"]
DIRS = [b"/usr/bin/", b"/usr/lib/", b"/usr/lib64/", b"/etc/", b"/usr/share/doc/pkg/", b"/opt/p/", b"/", b"/var/lib/x/",
        b"/usr/lib32/y/", b"/usr/libexec/"]


# Blocks that the hash of the binary diff (buzhash) puts into one place of the smallest table: the last one, the first, the last but one.
CROWD = [bytes.fromhex(x[i:i + 32]) for x in (
    "08eed0818b537f6f02606ecc78be22860e267f51f1f6b67f312d5b49abcd0c4819e23a6c12d53069c2d30a1374f9fe5c2209e7e64a615335efec43b86754ecb6"
    "4eb4932ff9882c5d0587375ffd61b382531ff11aeb277c891aba7f0b7826d3445ee334d1aef789e219338c9bbb375e966fb343d99e04c8ac1d645445c73a326d"
    "6fd78f5a0fb8aea8ab561ace2c88018ea6133ac3f28ebd4c02050138c8f31980ac863a269ef436ae53cebb54d06463c3ae739b704d633ae288e7ef3494bfbf22"
    "bcdfa3f309c014be51b55e216469d491c7829c0bb9bbb3d088cf73c0aba98f91c901aa273f8f68472ddcdd0df07117b4ce5188e2799ef1d1d379cfbbaca93933"
    "eb70c3414fa890992b261cd592804fdaecf49646cdb465c62dc1d8d39cf05c60f44d404e7aee907fe18d69f8e1fbe263f451f849688b15f4d12195ae88cbec0a"
    "f5fe1ecad29afaa0a9c582568fc74fc6f88448aaccdc0e67c8ac06f652fbf5c2f9080e5afda05c673575d256a47b6984fd4e7a981e5629db02cc4ebd421c6bba",
    "17a393e5c0942b668f79ab1dd420ce65282fe47d45bbb389847fcb5226f9fa783908f14da5f40bc4b94ca2ae3a27028d568ac09a56ad0c43212ce6f3772d2e14"
    "5a55e16916cce73ff0116ccaa0bc8541782baa7a3bc02e20adcfcc99defe1529951ee6141e4f8a3a0fd53078aae58554b7bac82b1269fc1b3eb5ff9a6a667619"
    "bf48d4c3bc4fa783861ac91559cc37ddd1b491449475ff3c134d04dbce60e55ada6914605c63c79181e1ae2a5332dda9df6dd82d1a04195e0f49def98252f651",
    "35604ae00782c4d075a1261632cfa2f13622974df096b5749e7a126dc82f4c736038a88d58156f276f56bd74e6927a9f7540fe62fef012ef0c42b031fc66c78b"
    "777b10b660352d940a65c2b8cec57648f17f991bfe3dfe44c690957fa079c843") for i in range(0, len(x), 32)]

# Pairs of blocks that differ in their last, first or a middle byte only and share a place of the smallest table.
TWINS = [(bytes.fromhex(x[i:i + 32]), bytes.fromhex(x[i + 32:i + 64])) for x in (
    "3847d75601fb4c37bbe88833dae6c5633847d75601fb4c37bbe88833dae6c5a53b61d9215f4750ce8bc2c17822ddb9b03b61d9215f4750ce8bc2c17822ddb90a"
    "5f7c9833f7300a2b9fc49f0a157275815f7c9833f7300a2b9fc49f0a15727506c2b08666d8557512185045c72146df8ac2b08666d8557512185045c72146dfcb"
    "5788fc663f0aed051023d6493ce82b365788fc663f0aed051023d6493ce82bab9631fd4264d538dbda1878af5d0c42379e31fd4264d538dbda1878af5d0c4237"
    "add846545cac35d1b8845c9cab454ed2dfd846545cac35d1b8845c9cab454ed27592f26dcad4dad28b4bdb60217bd0753792f26dcad4dad28b4bdb60217bd075"
    "bab5246c0173f25de2084d253ef849c688b5246c0173f25de2084d253ef849c65e1e014c2abb42cb634aa596a549eee9ce1e014c2abb42cb634aa596a549eee9"
    "8d6c1d5222d2fbc26df611dbd6c964188d6c1d5222d2fb4a6df611dbd6c96418664b04eac9d10b19649d52daa7120af8664b04eac9d10bbc649d52daa7120af8"
    "fa41b29f6a9ce961710bcd603dd612dbfa41b29f6a9ce960710bcd603dd612db9c0f14cfa70b1af92925529b836a4d6b9c0f14cfa70b1a442925529b836a4d6b"
    "127d0a1bd8c65e3d90d7719d1101fb3b127d0a1bd8c65e8890d7719d1101fb3b",) for i in range(0, len(x), 64)]


def crowded(r, n):
    """Data whose blocks compete for the same few places at both ends of the hash table."""
    out, cs = bytearray(), r.sample(CROWD, r.choice([3, 8, 20])) + [r.randbytes(16) for _ in range(3)]
    if r.random() < 0.5:
        more = r.randbytes(64)
        cs = [cs[-1]] + [x + more for x, _ in r.sample(TWINS, 4)]
    while len(out) < n:
        out += bytes(r.choice([0, 0, 4, 8, 12, 1]))
        for _ in range(r.randrange(2, 40)):
            out += r.choice(cs)
    return bytes(out[:n])


def rbytes(r, n):
    return r.randbytes(n)


def content(r, maxlen):
    k = r.random()
    n = r.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 63, 64, 100, 511, 512]) if k < 0.25 else r.randrange(0, maxlen)
    m = r.randrange(7)
    if m == 6:
        return crowded(r, n)
    if m == 0:
        return rbytes(r, n)
    if m == 1:
        return (b"".join(r.choice(WORDS) + b" " for _ in range(n // 5 + 1)))[:n]
    if m == 2:
        return bytes([r.randrange(256)]) * n
    if m == 3:
        u = rbytes(r, r.randrange(1, 80))
        return (u * (n // len(u) + 1))[:n]
    if m == 4:  # table of integers
        return b"".join(struct.pack("<I", i * 7) for i in range(n // 4 + 1))[:n]
    a = rbytes(r, min(n, 700))
    out = bytearray()
    while len(out) < n:
        out += a if r.random() < 0.7 else rbytes(r, r.randrange(1, 50))
    return bytes(out[:n])


def edit(r, b, maxlen):
    """A new version of b."""
    b = bytearray(b)
    for x, y in TWINS:
        if x in b and r.random() < 0.7:
            b = b.replace(x, y)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        m = r.randrange(10)
        n = len(b)
        if m == 0:
            p = r.randrange(n + 1)
            b[p:p] = rbytes(r, r.randrange(1, 200))
        elif m == 1 and n:
            p = r.randrange(n)
            del b[p:p + r.randrange(1, 300)]
        elif m == 2 and n:
            for _ in range(r.randrange(1, 12)):
                b[r.randrange(n)] = r.randrange(256)
        elif m in (3, 4) and n:  # sparse bytewise changes: what the add block is for
            p = r.randrange(n)
            for q in range(p, min(n, p + r.randrange(40, 3000)), r.choice([4, 8, 16, 32])):
                b[q] = (b[q] + r.choice([1, 255, 16, 4])) & 255
        elif m == 5 and n > 40:  # move a chunk
            p = r.randrange(n - 20)
            l = r.randrange(10, n - p)
            c = b[p:p + l]
            del b[p:p + l]
            q = r.randrange(len(b) + 1)
            b[q:q] = c
        elif m == 6 and n:  # duplicate a chunk
            p = r.randrange(n)
            c = b[p:p + r.randrange(1, 2000)]
            b += c
        elif m == 7:
            b += content(r, 600)
        elif m == 8 and n:
            del b[r.randrange(n):]
        elif m == 9:
            b = bytearray(content(r, maxlen))
        if len(b) > maxlen * 2:
            del b[maxlen * 2:]
    return bytes(b)


def fname(r, source=False):
    if source:
        return b"%s%d.%s" % (r.choice(WORDS), r.randrange(50), r.choice([b"spec", b"patch", b"tar.gz"]))
    n = r.choice(DIRS) + r.choice(WORDS) + r.choice([b"", b"", b".so.%d" % r.randrange(9), b".txt", b"-%d" % r.randrange(99),
                                                    b"%d/" % r.randrange(9) + r.choice(WORDS)])
    if r.random() < 0.02:                          # names of more than 255 characters
        n += b"/" + b"/".join(bytes([97 + r.randrange(26)]) * r.choice([7, 100, 200, 240]) for _ in range(r.choice([2, 3, 5])))
    return n


def one_file(r, name, maxlen, plain=False):
    k = r.random()
    if plain or k < 0.62:
        f = File(name, R.S_IFREG | r.choice([0o644, 0o755, 0o600, 0o4755]), content(r, maxlen))
    elif k < 0.72:
        f = File(name, R.S_IFDIR | 0o755)
    elif k < 0.82:
        l = r.choice([b"../x", b"/usr/bin/alpha", b"t", rbytes(r, 9).hex().encode(), b"a/" * r.randrange(1, 60) + b"b"])
        f = File(name, R.S_IFLNK | 0o777, linkto=l)
    elif k < 0.86:
        f = File(name, r.choice([R.S_IFCHR, R.S_IFBLK]) | 0o600, rdev=r.choice([0x0103, 0x0501, 0x0801, 0, 0xffff, 0x00ff]))
    elif k < 0.88:
        f = File(name, R.S_IFIFO | 0o600)
    elif k < 0.91:
        f = File(name, R.S_IFREG | 0o644, content(r, maxlen), flags=r.choice([1, 1 | 16, 8, 1 | 8, 2, 128, 4]))
    elif k < 0.93:
        f = File(name, R.S_IFREG | 0o644, b"", flags=64, in_cpio=False, hdr_size=r.choice([0, 100]))
    elif k < 0.95:
        f = File(name, R.S_IFREG | 0o644, content(r, maxlen), verify=r.choice([0xffffffff & ~1, 0xffffffff & ~2, 0, 2, 3, 0xff]))
    elif k < 0.97:
        f = File(name, R.S_IFREG | 0o644, content(r, maxlen), in_header=False)
    else:
        f = File(name, R.S_IFREG | 0o644, content(r, maxlen))
    return f


def file_set(r, n, maxlen, plain=False, source=False, hardlinks=True, colors=None, links=None):
    files, seen = [], set()
    links = r.choice([0, 0, 0, 0.3]) if links is None else links     # symbolic links whose targets take up much of a block
    near = r.choice([0, 0.1, 0.5])                 # names that begin with another name, next to it or not
    for _ in range(n):
        nm = fname(r, source)
        if files and r.random() < near:
            b = r.choice([files[-1], r.choice(files)]).name
            nm = r.choice([b + b"x", b + r.choice([b".bak", b"-1", b"/x"]), b[:-1] if b[-2:-1] not in (b"", b"/") else b])
        if nm in seen:
            continue
        seen.add(nm)
        f = one_file(r, nm, maxlen, plain or source)
        if f.isreg() and f.in_header and links and not plain and not source and r.random() < links:
            f = File(nm, R.S_IFLNK | 0o777, linkto=r.choice([b"a/b", b"../", b"long/name"]) * r.randrange(1, 400) + b"%d" % r.randrange(99))
        files.append(f)
    if hardlinks and not plain and not source and r.random() < 0.15:
        data = content(r, maxlen)
        k = r.randrange(2, 4)
        for i in range(k):
            nm = b"/usr/share/hl%d-%d" % (r.randrange(999), i)
            if nm in seen:
                continue
            seen.add(nm)
            files.append(File(nm, R.S_IFREG | 0o644, data, cpio_data=None if i == k - 1 else b""))
    if (colors if colors is not None else r.random() < 0.15) and not source:
        for f in files:
            if f.isreg():
                f.color = r.choice([0, 1, 2, 0, 3, 4])
    return files


def evolve(r, files, maxlen, plain=False, source=False):
    out, seen = [], set()
    for f in files:
        k = r.random()
        if k < 0.1:
            continue
        g = File(f.name, f.mode, f.data, f.linkto, f.flags, f.verify, f.rdev, f.color, f.in_cpio, f.in_header,
                 hdr_size=f.hdr_size, cpio_data=f.cpio_data)
        if k < 0.5 and f.isreg() and f.in_cpio and f.cpio_data is None:
            g.data = edit(r, f.data, maxlen)
        elif k < 0.57:
            g.name = fname(r, source)
        elif k < 0.6 and f.islnk():
            g.linkto = f.linkto + b"z"
        elif k < 0.62 and not plain and not source:
            g = one_file(r, f.name, maxlen)
        elif k < 0.64 and f.isreg():
            g.mode ^= 0o111
        if g.name in seen:
            continue
        seen.add(g.name)
        out.append(g)
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        nm = fname(r, source)
        if nm not in seen:
            seen.add(nm)
            out.append(one_file(r, nm, maxlen, plain or source))
    if r.random() < 0.2:
        r.shuffle(out)
    return out


COMPS = ["gzip", "gzip", "xz", "bzip2", "zstd", "lzma", "none"]


def level_for(r, comp):
    if comp in ("gzip", "bzip2"):
        return r.choice([9, 9, 9, 1, 6, 3])
    if comp == "xz":
        return r.choice([3, 2, 6, 1])
    if comp == "lzma":
        return r.choice([2, 2, 1, 5])
    if comp == "zstd":
        return r.choice([19, 3, 3, 1, 9])
    return 0


def odd_archive(r, source, order):
    """Unusual but well-formed archives: entries with absolute names (which are not those of the header), entries that occur twice,
    fields that archivers fill in in other ways."""
    k = r.randrange(4)
    reg = [f for f in order if f.in_cpio and f.cpio_data is None]
    if not reg:
        return ""
    if k == 0 and not source:
        for f in r.sample(reg, min(len(reg), r.choice([1, 1, 2, 9]))):
            f.cpio_name = r.choice([b"", b"/", b"./."]) + f.name
        return "names "
    if k == 1:
        for _ in range(r.choice([1, 2, 3])):
            f = r.choice(reg)
            order.insert(r.randrange(order.index(f), len(order)) + 1, f)
        return "twice "
    for f in reg:
        f.cpio_fields = dict(ino=r.choice([0, 7, r.getrandbits(32)]), uid=r.choice([0, 1000, r.getrandbits(32)]), gid=r.getrandbits(9),
                             nlink=r.choice([1, 2, 5, 0]), dev=(r.getrandbits(8), r.getrandbits(16)), mtime=r.getrandbits(32), upper=k == 3)
    return "fields "


class Pair:
    """old/new Rpm objects plus the built bytes."""


def rand_meta(r, source=False):
    return dict(name=r.choice([b"pkg", b"foo-bar", b"x", b"lib-very-long-package-name-with-dashes"]),
                version=r.choice([b"1.0", b"2", b"3.4.5~rc1", b"10", b"1.0^git1", b"2+b.1"]), release=r.choice([b"1", b"2.fc30", b"7.el8_2"]),
                epoch=r.choice([None, None, None, 0, 1, 37]), source=source, digest=r.choice(["sha256", "sha256", "md5"]),
                arch=r.choice([b"x86_64", b"noarch"]), dirnames=r.random() < 0.98)


def on_grid(r, files, more):
    """Gives the regular files sizes that make every archive entry (as installed files are archived) as long as a number of blocks."""
    n = r.choice([4096, 8192, 8192, 16384, 16384, 24576])
    if r.random() < 0.6:                                # names of one length: the data of all files begins at the same place of a block
        w = max(len(f.name) for f in files)
        for f in files:
            f.name += b"_" * (w - len(f.name))
    for f in files:
        if f.isreg() and f.data and f.cpio_data is None:
            h = 110 + len(f.name) + more - 1 + 3
            f.data = r.randbytes(n - (h + -h % 4) - r.choice([0, 0, 0, 1, 3]))


def on_brink(r, files, more):
    """Gives regular files sizes that put chosen parts of the entries behind them at the end of a block: their headers, names, link
    targets, data, or something within."""
    off, prev, lim = 0, None, sum(8192 for f in files) + 200000
    for f in files:
        h = 110 + len(f.name) + more - 1 + 3
        hp = h + -h % 4
        n = len(f.data) if f.isreg() else len(f.linkto) if f.islnk() else 0
        if prev is not None and r.random() < 0.7:
            pt = r.choice([0, 4, 108, 112, h & ~3, hp - 4, hp, hp + 4, hp + (n & ~3), hp + n + -n % 4, r.randrange(0, hp, 4), hp + r.randrange(n + 1) // 4 * 4])
            add = -(off + pt) % 8192 if prev.data else 0
            prev.data += r.randbytes(add)
            off += add
        prev = f if f.isreg() and f.data and f.cpio_data is None else None
        off += hp + n + -n % 4
        if off > lim:
            break


def headers_on_brink(r, helper, rpms):
    """Gives the header of a package a size at or next to a multiple of the block size."""
    for x in rpms:
        n = len(R.RpmParts(x.build(helper)).header)
        x.summary += b"s" * ((r.choice([-1, 0, 1, -2, 7, -16]) - n) % 8192)


def pair(r, helper, nfiles=None, maxlen=6000, comps=None, plain=False, same_comp=None, identity=False, source=None,
         digest=None, colors=None, level=None, prefix=b"", name=None, grid=None, links=None, styles=None):
    p = Pair()
    p.grid = (maxlen >= 3000 and r.random() < 0.12) if grid is None else grid
    source = (r.random() < 0.08) if source is None else source
    m = rand_meta(r, source)
    if digest:
        m["digest"] = digest
    if source:
        m["dirnames"] = True
    if name:
        m["name"] = name
    n = nfiles if nfiles is not None else r.choice([0, 1, 1, 2, 3, 5, 8, 14, 25])
    whole = p.grid and r.random() < 0.8
    fo = file_set(r, max(n, 4) if p.grid else n, maxlen, plain or whole, source, hardlinks=not whole, colors=colors, links=links)
    if p.grid:
        (on_grid if whole or r.random() < 0.5 else on_brink)(r, fo, len(prefix))
    fn = evolve(r, fo, maxlen, plain, source)
    for f in fo + fn:
        f.name = prefix + f.name
    order_o = list(fo)
    order_n = list(fn)
    if r.random() < 0.35:
        r.shuffle(order_o)
        r.shuffle(order_n)
    co = r.choice(comps or COMPS)
    cn = co if (same_comp if same_comp is not None else r.random() < 0.7) else r.choice(comps or COMPS)
    for f in fo + fn:
        if f.cpio_name is None:
            f.cpio_name = (b"" if source else b".") + f.name
    if r.random() < 0.05 and not source:
        for f in fo + fn:
            f.cpio_name = f.name[1:]
    p.odd = odd_archive(r, source, order_o) if r.random() < 0.1 else ""
    if r.random() < 0.1:
        p.odd += odd_archive(r, source, order_n)
    p.old = Rpm(files=fo, order=order_o, comp=co, level=level_for(r, co) if level is None else level,
                sigpad=r.choice([0, 0, 0, 0, 0, 0, 1, 1, 4, 4, 4096, 9001 + r.randrange(8)]), **m)
    if styles if styles is not None else r.random() < 0.12:
        p.old.style = r.getrandbits(32)
    brink = r.random() < 0.04
    if brink:
        headers_on_brink(r, helper, [p.old])
    m2 = dict(m)
    m2["version"] = r.choice([m["version"], b"9.9", b"1.0.1"])
    m2["release"] = m["release"] if m2["version"] != m["version"] else m["release"] + b".1"
    if r.random() < 0.05:
        m2["epoch"] = r.choice([None, 2])
    if r.random() < 0.1:
        m2["digest"] = r.choice(["sha256", "md5"]) if not digest else digest
    p.new = Rpm(files=fn, order=order_n, comp=cn, level=level_for(r, cn) if level is None else level,
                sigpad=r.choice([0, 0, 0, 0, 0, 0, 2, 2, 7, 7, 9001 + r.randrange(8)]), summary=r.choice([b"s", b"another summary"]), **m2)
    for x in (p.old, p.new):
        if r.random() < 0.03 and not brink:            # the payload's format is told beyond 64 KB of other things
            x.description = bytes(r.choices(b"abc \n", k=66000 + r.randrange(5000)))
    p.oldb = p.old.build(helper)
    p.newb = p.new.build(helper)
    return p


def identity(p, helper):
    """The old package is the new one too, so its payload is compressed as the library does it."""
    p.old.style = None
    p.oldb = p.newb = p.old.build(helper)
    p.new = p.old


def many(r, helper, n):
    """A pair with so many files that numbers in the sequence take many digits: long runs, long jumps forwards and back."""
    p = Pair()
    p.grid, p.odd = False, ""
    m = dict(rand_meta(r), dirnames=True, name=b"many")
    mk = lambda v: [File(b"/d%d/f%d" % (i // 1000, i), R.S_IFREG | 0o644, b"%d" % (i * v) if i % 50 == 0 else b"") for i in range(n)]
    fo, fn = mk(1), mk(r.choice([1, 1, 3]))
    for f in r.sample(fo, r.choice([0, 1, 5])):         # not named by the sequence: gaps
        f.flags = 1
    fn = fn[r.randrange(9):]
    k = r.randrange(1, n)
    order = r.choice([fo, fo[k:] + fo[:k], fo[k:] + fo[:k], fo[:k] + fo[:k - 1:-1][:20] + [f for f in fo[k:] if f not in fo[:k - 1:-1][:20]]])
    for f in fo + fn:
        f.cpio_name = b"." + f.name
    p.old = Rpm(files=fo, order=order, comp="gzip", level=6, **m)
    p.new = Rpm(files=fn, comp="gzip", level=9, **dict(m, version=b"77"))
    p.oldb, p.newb = p.old.build(helper), p.new.build(helper)
    return p


OPT_COMPS = [0, 1, 2, 3, 4, 6]


def options(r, new_comp="gzip", rpmonly=None, allow_v1=True, zstd=True, lzip=True, maxlevel=6):
    """(optspec string for drv, dict of what it means)."""
    if r.random() < 0.08 and not rpmonly:
        return "NULL", dict(rpmonly=False, version=3, comp=new_comp, addblk="bzip2", seqfile=None)
    o, d = ["init"], dict(rpmonly=False, version=3, comp=new_comp, addblk="bzip2", seqfile=None, comp_level=None)
    ro = (r.random() < 0.35) if rpmonly is None else rpmonly
    if ro:
        o.append("type=1")
        d["rpmonly"] = True
    elif r.random() < 0.4:
        v = r.choice([1, 2, 3] if allow_v1 else [2, 3])
        o.append("version=%d" % v)
        d["version"] = v
    cs = [0, 1, 2, 3, 4] + ([6] if zstd else []) + ([5] if lzip else [])
    if r.random() < 0.6:
        c = r.choice(cs)
        l = r.choice([0, 1, 2, maxlevel]) if c != 6 else r.choice([1, 2, 3])
        o.append("comp=%d:%d" % (c, l))
        d["comp"] = D.API_NAME[c]
        d["comp_level"] = l
    k = r.random()
    if k < 0.2:
        o.append("noaddblk")
        d["addblk"] = None
    elif k < 0.6:
        c = r.choice(cs)
        l = r.choice([0, 1, 2, maxlevel]) if c != 6 else r.choice([1, 3])
        o.append("addblk=%d:%d" % (c, l))
        d["addblk"] = D.API_NAME[c]
        d["addblk_level"] = l
    r2 = list(o[1:])
    r.shuffle(r2)
    return ",".join(["init"] + r2), d
