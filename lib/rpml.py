"""Writer of RPML file lists (what rpm patches are described by)."""
import struct


class Entry:
    def __init__(self, name, mode=0o100644, size=0, md5=b"\0" * 16, rdev=0):
        self.name, self.mode, self.size, self.md5, self.rdev = name, mode, size, md5, rdev


def string(b):
    return bytes([len(b)]) + b


class Names:
    """File names share a prefix with the previous one."""

    def __init__(self, r):
        self.prev, self.r = b"", r

    def put(self, name):
        p = 0
        while p < min(len(name), len(self.prev), 255) and name[p] == self.prev[p]:
            p += 1
        if p and self.r.random() < 0.3:
            p = self.r.randrange(p + 1)
        rest = name[p:]
        self.prev = name
        if len(rest) < 255 and not (self.r.random() < 0.05):
            return bytes([p, len(rest)]) + rest
        return bytes([p, 255]) + struct.pack(">H", len(rest)) + rest


def build(r, name, evr, patched, entries, dot=None, host=b"host", patches=None):
    """patched: names of the files no patch has replaced (the list's first part); entries: the list of files."""
    o = [b"RPML", string(name), string(evr), string(host), struct.pack(">I", 1500000000)]
    n = Names(r)
    if patches is None:
        patches = [b"p-1-1", b"p-2-1"][:r.choice([1, 2])] if patched else r.choice([[], [], [b"x-1-1"]])
    o.append(struct.pack(">H", len(patches)))
    if patches:
        o += [string(p) for p in patches]
        o.append(struct.pack(">I", len(patched)))
        o += [n.put(p) for p in patched]
    for e in entries:
        o.append(n.put((b"./" if (dot if dot is not None else r.random() < 0.5) else b"") + e.name))
        o.append(struct.pack(">H", e.mode))
        if e.mode == 0:
            continue
        sz = e.size
        need = 1 if sz < 256 else 2 if sz < 65536 else 3 if sz < 1 << 24 else 4
        need = r.randrange(need, 5)
        if r.random() < 0.15:
            a, b = r.choice([0, 3, 255]), r.choice([0, 1, 63])
            o.append(bytes([255, a, b << 2 | need - 1]) + r.randbytes((a + 1 if a else 0) + (b + 1 if b else 0)))
        else:
            a, b = r.choice([0, 0, 1, 3, 7]), r.choice([0, 0, 1, 3, 6])
            o.append(bytes([a << 5 | b << 2 | need - 1]) + r.randbytes((a + 1 if a else 0) + (b + 1 if b else 0)))
        t = e.mode & 0o170000
        if t in (0o020000, 0o060000):
            o.append(struct.pack(">I", e.rdev))
        if t in (0o100000, 0o120000):
            o.append(struct.pack(">I", sz)[4 - need:])
            if sz:
                o.append(e.md5)
    o.append(b"\0\0")
    return b"".join(o)
