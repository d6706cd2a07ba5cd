"""Builds the code under test from /repo's current working tree, one flavour per instrumentation, out of tree."""
import fcntl, glob, hashlib, os, re, shlex, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DRPM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GUARD = "DRPM_VERIF"

COMMON = ["-std=c99", "-DHAVE_CONFIG_H", "-g", "-fno-omit-frame-pointer", "-w"]
FLAVOURS = {
    # address + undefined behaviour + leaks
    "asan": dict(cc="clang", cflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
                                       "-fno-sanitize-recover=all"],
                 hcflags=["-DWITH_LSAN"], hooks=False),
    # the same, with the block cache and the file cache shrunk (hooks on) so that small inputs page and evict
    "asansmall": dict(cc="clang", cflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
                                            "-fno-sanitize-recover=all"],
                      hcflags=["-DWITH_LSAN"], hooks=True),
    "asansmall4": dict(cc="clang", cflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
                                             "-fno-sanitize-recover=all", "-DDRPM_VERIF_MAX_OPEN_FILES=4", "-DDRPM_VERIF_MAX_CORE_BLOCKS=6"],
                       hcflags=["-DWITH_LSAN"], hooks=True),
    # the same for the coverage-guided stage
    "fuzz": dict(cc="clang", cflags=["-O1", "-fsanitize=address,undefined,fuzzer", "-fno-sanitize=nonnull-attribute",
                                       "-fno-sanitize-recover=all"],
                 hcflags=[], hooks=True),
    "tsan": dict(cc="clang", cflags=["-O1", "-fsanitize=thread"], hcflags=[], hooks=False),
    "plain": dict(cc="gcc", cflags=["-O2"], hcflags=[], hooks=False),
    # automatic variables start with a pattern instead of what the stack held
    "pattern": dict(cc="gcc", cflags=["-O1", "-ftrivial-auto-var-init=pattern"], hcflags=[], hooks=False),
    # for valgrind memcheck: uses of uninitialised memory
    "memcheck": dict(cc="gcc", cflags=["-O1"], hcflags=[], hooks=False),
    "memchecksmall": dict(cc="gcc", cflags=["-O1"], hcflags=[], hooks=True),
    "cov": dict(cc="gcc", cflags=["-O0", "--coverage"], hcflags=[], hooks=False),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(map(shlex.quote, cmd)), r.stdout[-6000:]))
    return r.stdout


def pkg(*a):
    return subprocess.run(["pkg-config", *a], stdout=subprocess.PIPE, text=True, check=True).stdout.split()


def sources():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(DRPM_SOURCES([^)]*)\)", cm)
    src = m.group(1).split() if m else [os.path.basename(x) for x in glob.glob(REPO + "/src/*.c")]
    return [os.path.join(REPO, "src", s) for s in src]


def write_config(d, zstd=True, lzip=True):
    tpl = open(os.path.join(REPO, "src/config.h.in")).read()
    on = {"HAVE_LZLIB_DEVEL": lzip, "WITH_ZSTD": zstd, "ARCH_LESS_64BIT": False}

    def sub(m):
        k = m.group(1)
        return "#define %s%s" % (k, m.group(2)) if on.get(k) else "/* #undef %s */" % k
    txt = re.sub(r"#cmakedefine\s+(\w+)(.*)", sub, tpl)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "config.h"), "w").write(txt)


LIBS = ["-lz", "-lbz2", "-llzma", "-lrpm", "-lrpmio", "-lcrypto", "-lzstd", "-llz", "-lpthread", "-ldl", "-lm"]


def build(flavour, out, harness=("drv.c",), exe="drv", redirect=None, extra_h=(), extra_c=(), zstd=True, lzip=True,
          ldflags=()):
    """Compiles every library source plus the harness into out/exe. redirect: {symbol: replacement} applied to the
    library objects only (objcopy), which is how faults are injected without touching the code."""
    fl = FLAVOURS[flavour]
    os.makedirs(out, exist_ok=True)
    write_config(out, zstd, lzip)
    rpmc = pkg("--cflags", "rpm")
    cf = COMMON + fl["cflags"] + ["-I", out, "-I", REPO + "/src"] + rpmc
    if fl["hooks"]:
        cf.append("-D" + GUARD)
    objs, jobs = [], []
    for s in sources():
        o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        jobs.append([fl["cc"], *cf, *extra_c, "-c", s, "-o", o])
    hobjs = []
    for h in harness:
        o = os.path.join(out, "h_" + os.path.basename(h)[:-2] + ".o")
        hobjs.append(o)
        hf = [x for x in cf if x != "-std=c99"] + ["-std=gnu11"] + fl["hcflags"] + list(extra_h)
        jobs.append([fl["cc"], *hf, "-c", os.path.join(VERIF, "harness", h), "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    if redirect:
        m = os.path.join(out, "redirect.map")
        open(m, "w").write("".join("%s %s\n" % kv for kv in sorted(redirect.items())))
        for o in objs:
            sh(["objcopy", "--redefine-syms=" + m, o])
    exe = os.path.join(out, exe)
    sh([fl["cc"], *fl["cflags"], "-g", "-o", exe, *objs, *hobjs, *ldflags, *LIBS])
    return exe


def fault_args(flavour="asan"):
    """build() arguments for a driver whose library objects call the fault injection wrappers."""
    src = open(os.path.join(VERIF, "harness/faults.c")).read()
    names = re.findall(r"\bdrpmv_(\w+)\(", src)
    return dict(flavour=flavour, harness=("drv.c", "faults.c"), redirect={n: "drpmv_" + n for n in names})


def build_comphelper(out):
    exe = os.path.join(out, "comphelper")
    sh(["gcc", "-O2", "-w", "-o", exe, os.path.join(VERIF, "harness/comphelper.c"), *pkg("--cflags", "rpm"), *LIBS])
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
