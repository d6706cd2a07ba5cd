"""Installed packages in a scratch directory: an RPM database holding given headers, and the files on disk below a prefix."""
import copy, hashlib, os, shutil, subprocess
import deltafmt as D
import gen as G
import rpmgen as R


class Db:
    """An RPM database below directory d; env is what a process needs to use it (a ~/.rpmmacros pointing at it)."""

    def __init__(self, d):
        self.home, self.path = os.path.join(d, "home"), os.path.join(d, "rpmdb")
        os.makedirs(self.home)
        with open(os.path.join(self.home, ".rpmmacros"), "w") as f:
            f.write("%%_dbpath %s\n" % self.path)
        self.env = dict(HOME=self.home)

    def add(self, headers):
        e = dict(os.environ, **self.env)
        p = subprocess.run(["rpmdb", "--importdb"], input=b"".join(headers), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("rpmdb --importdb: %r" % p.stdout[-500:])

    def snapshot(self):
        h = hashlib.md5()
        with open(os.path.join(self.path, "rpmdb.sqlite"), "rb") as f:
            h.update(f.read())
        return h.hexdigest()


def install(files):
    """Writes the files of a package (absolute names) to disk. False when their names conflict."""
    try:
        for f in files:
            if not f.in_header:
                continue
            p = os.fsdecode(f.name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if f.isreg():
                with open(p, "wb") as o:
                    o.write(f.data)
                for k in range((0, 0, 0, 1, 2, 5)[sum(f.name) % 6]):       # more names for it, not of the package
                    if not os.path.lexists(p + "~link%d" % k):
                        os.link(p, p + "~link%d" % k)
            elif f.islnk():
                os.symlink(f.linkto, p)
            elif f.mode & 0o170000 == 0o040000:
                os.makedirs(p, exist_ok=True)
    except OSError:
        return False
    return True


def pair(ctx, r, root, name, **kw):
    """A package pair whose file names lie below root, the old package's files being installed there."""
    for _ in range(50):
        p = G.pair(r, ctx.helper, prefix=os.fsencode(root), name=name, **kw)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        if all(b"/../" not in f.name for f in p.old.files) and install(p.old.files):
            return p
    raise RuntimeError("no installable package")


def mutate(r, path, kind=None):
    """Changes an installed regular file; returns what was done."""
    b = open(path, "rb").read()
    n = len(b)
    k = kind or r.choice(["flip", "truncate", "extend", "delete", "directory", "symlink", "dangling", "empty", "replace", "elf"])
    if k == "flip" and n:
        i = r.choice([0, n - 1, r.randrange(n)])
        b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    elif k == "truncate" and n:
        b = b[:r.choice([0, n - 1, r.randrange(n)])]
    elif k == "extend":
        b += r.randbytes(r.choice([1, 3, 10000]))
    elif k == "empty":
        b = b""
    elif k == "replace":
        b = r.randbytes(n)
    elif k == "elf":
        b = b"\x7fELF" + bytes([r.choice([1, 2]), r.choice([1, 2])]) + r.randbytes(r.choice([10, 58, 122, n + 10]))
    os.unlink(path)
    if k == "delete":
        return k
    if k == "directory":
        os.mkdir(path)
    elif k == "dangling":
        os.symlink("nowhere-to-be-found", path)
    elif k == "symlink":
        with open(path + ".real", "wb") as f:
            f.write(b)
        os.symlink(path + ".real", path)
    else:
        with open(path, "wb") as f:
            f.write(b)
        for i in range(r.choice([0, 0, 1, 3])):
            os.link(path, path + "~again%d" % i)
    return k


def file_state(f, algo):
    """(content as recorded, size as recorded) of one header file entry, as found on disk; None where it cannot be read."""
    p = os.fsdecode(f.name)
    try:
        size = os.stat(p).st_size
    except OSError:
        return None, None
    try:
        with open(p, "rb") as fh:
            b = fh.read(f.size)
    except OSError:
        return None, size == f.size
    if len(b) < f.size:
        return False, size == f.size
    return hashlib.new(algo, b).hexdigest().encode() == f.digest, size == f.size


def variants(ctx, r, rpm):
    """Other packages of the same name (multiversion installs)."""
    out = []
    for _ in range(r.choice([0, 0, 1, 2])):
        v = copy.copy(rpm)
        k = r.randrange(4)
        if k == 0:
            v.epoch = 3 if rpm.epoch is None else None if r.random() < 0.5 else rpm.epoch + 1
        elif k == 1:
            v.version = rpm.version + b".9"
        elif k == 2:
            v.release = b"0." + rpm.release
        else:
            v.epoch, v.release = 11, rpm.release + b"z"
        v.files, v.order = [], []
        out.append(R.RpmParts(v.build(ctx.helper)))
    return out
