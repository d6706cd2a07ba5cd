"""Helpers for the demonstrations: scratch directory, package generator, the built library through ctypes."""
import atexit, ctypes as C, os, random, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import rpmgen as R
import deltafmt as D
import dgen
import gen as G

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo.")
atexit.register(shutil.rmtree, TMP, True)
_h = os.path.join(TMP, "comphelper")
_pc = subprocess.run(["pkg-config", "--cflags", "rpm"], stdout=subprocess.PIPE, text=True).stdout.split()
LIBS = ["-lz", "-lbz2", "-llzma", "-lrpm", "-lrpmio", "-lcrypto", "-lzstd", "-llz", "-lpthread", "-ldl", "-lm"]
subprocess.run(["gcc", "-O2", "-w", "-o", _h, os.path.join(HERE, "comphelper.c"), *_pc, *LIBS], check=True)
helper = R.CompHelper(_h, TMP)
lib = C.CDLL(os.path.join(REPO, "_build/zstd/src/libdrpm.so"))
P = C.c_char_p
OPT = C.c_void_p


def path(name, data=None):
    p = os.path.join(TMP, name)
    if data is not None:
        with open(p, "wb") as f:
            f.write(data)
    return p


def data(p):
    with open(p, "rb") as f:
        return f.read()


def opts(**kw):
    """type, version, comp, level, addcomp, addlevel, noadd, seqfile, patch=(print, package)"""
    o = C.c_void_p()
    assert lib.drpm_make_options_init(C.byref(o)) == 0
    rc = []
    if "type" in kw:
        rc.append(lib.drpm_make_options_set_type(o, kw["type"]))
    if "version" in kw:
        rc.append(lib.drpm_make_options_set_version(o, kw["version"]))
    if "comp" in kw:
        rc.append(lib.drpm_make_options_set_delta_comp(o, kw["comp"], kw.get("level", 0)))
    if "addcomp" in kw:
        rc.append(lib.drpm_make_options_set_addblk_comp(o, kw["addcomp"], kw.get("addlevel", 0)))
    if kw.get("noadd"):
        rc.append(lib.drpm_make_options_forbid_addblk(o))
    if "seqfile" in kw:
        rc.append(lib.drpm_make_options_set_seqfile(o, P(kw["seqfile"].encode())))
    if "patch" in kw:
        rc.append(lib.drpm_make_options_add_patches(o, P(kw["patch"][0].encode()), P(kw["patch"][1].encode())))
    assert not any(rc), rc
    return o


def b(s):
    return P(s.encode() if isinstance(s, str) else s) if s is not None else None


def make(old, new, delta, o=None):
    return lib.drpm_make(b(old), b(new), b(delta), o)


def apply(old, delta, new):
    return lib.drpm_apply(b(old), b(delta), b(new))


def check(delta, mode=1):
    return lib.drpm_check(b(delta), mode)


def check_sequence(old, seq, mode=1):
    return lib.drpm_check_sequence(b(old), b(seq), mode)


def build_exe(name, srcs, cflags=("-O1",), cc="gcc"):
    """compiles the library sources of the working tree with srcs"""
    out = os.path.join(TMP, name)
    cfg = os.path.join(REPO, "_build/zstd/src")
    ls = [os.path.join(REPO, "src", x) for x in sorted(os.listdir(REPO + "/src")) if x.endswith(".c")]
    inc = next((d for d, _, fs in os.walk(REPO + "/_build/zstd") if "config.h" in fs), cfg)
    subprocess.run([cc, "-std=gnu11", "-g", "-w", "-DHAVE_CONFIG_H", *cflags, "-I", inc, "-I", REPO + "/src", *_pc, "-o",
                    out, *ls, *[os.path.join(HERE, s) if not os.path.isabs(s) else s for s in srcs], *LIBS], check=True)
    return out


def need(cond, text):
    if not cond:
        print("FAIL:", text)
        sys.exit(1)
