"""Images of files as prelink leaves them: ELF files with a .gnu.prelink_undo section, which the stand-in harness/unprelink.c undoes."""
import os, struct

UNDO = b".gnu.prelink_undo\0"


def image(r, orig, undo=True, is64=None, le=None):
    """undo: with the section that says prelink changed it; otherwise an ordinary ELF file of the same kind."""
    is64 = r.random() < 0.5 if is64 is None else is64
    le = r.random() < 0.6 if le is None else le
    e = "<" if le else ">"
    names = [b"\0", b".text\0", b".gnu.liblist\0"]
    if undo:
        names.insert(r.randrange(1, 4), UNDO)
    else:
        names.insert(r.randrange(1, 4), r.choice([b".gnu.prelink_und\0", b".gnu.prelink_undo2\0", b".data\0"]))
    if r.random() < 0.3:
        names.append(b".shstrtab\0")
    off, strs = {}, b""
    for n in names:
        off[n] = len(strs)
        strs += n
    if undo and r.random() < 0.2:              # the name is the last thing in the table
        strs = strs.replace(UNDO, b"." * len(UNDO))
        off[UNDO] = len(strs)
        strs += UNDO
    sec = list(names)
    r.shuffle(sec)
    stri = r.randrange(len(sec) + 1)
    sec.insert(stri, None)                     # the string table itself
    hl, sl = (64, 64) if is64 else (52, 40)
    sl += r.choice([0, 0, 8])
    body = orig[hl:hl + r.choice([0, 50, len(orig)])]
    strpos = hl + len(body)
    secpos = strpos + len(strs)
    secs = b""
    for s in sec:
        typ = 3 if s is None else r.choice([1, 1, 8])
        o, n, nm = (strpos, len(strs), 0) if s is None else (r.randrange(5000), r.randrange(5000), off[s])
        if is64:
            x = struct.pack(e + "IIQQQQIIQQ", nm, typ, 0, 0, o, n, 0, 0, 1, 0)
        else:
            x = struct.pack(e + "10I", nm, typ, 0, 0, o, n, 0, 0, 1, 0)
        secs += x.ljust(sl, b"\0")
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if le else 2, 1]) + bytes(9)
    if is64:
        h = ident + struct.pack(e + "HHIQQQIHHHHHH", 3, 62, 1, 0x1000, 0, secpos, 0, 64, 56, 0, sl, len(sec), stri)
    else:
        h = ident + struct.pack(e + "HHIIIIIHHHHHH", 3, 3, 1, 0x1000, 0, secpos, 0, 52, 32, 0, sl, len(sec), stri)
    assert len(h) == hl
    return h + body + strs + secs + orig + struct.pack(">Q", len(orig)) + b"DRPMUNDO"


def stand_in(c):
    """Builds the stand-in for a check."""
    import build as B
    c.exes["unprelink"] = os.path.join(c.top, "unprelink")
    B.sh(["gcc", "-O2", "-w", "-o", c.exes["unprelink"], os.path.join(B.VERIF, "harness/unprelink.c")])
