"""Builds what the checks need from /repo's working tree, into /verif/.build (objects cached by content)."""
import hashlib, os, re, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HORUS_PY = "/opt/horus-venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

def _lib_srcs():
    """the library's sources, as the repository's own build lists them"""
    try:
        m = re.search(r"set\(\s*horus_srcs\b([^)]*)\)", re.sub(r"#.*", "", open(os.path.join(REPO, "src", "CMakeLists.txt")).read()))
        got = [w for w in m.group(1).split() if w.endswith(".c")]
        if got and all(os.path.exists(os.path.join(REPO, "src", w)) for w in got):
            return got
    except (OSError, AttributeError, UnicodeError):
        pass
    return _SRCS


_SRCS = ["fsk.c", "kiss_fft.c", "kiss_fftr.c", "mpdecode_core.c", "H_256_768_22.c",
         "H_128_384_23.c", "golay23.c", "phi0.c", "horus_api.c", "horus_l2.c"]
LIB_SRCS = _lib_srcs()
DEFS = ["-DENABLE_ASSERTIONS", "-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DRUN_TIME_TABLES"]
ASN_DEFS = ["-DASN_DISABLE_OER_SUPPORT=1"]
# null + 0 (an empty extension) is formally undefined and harmless; out-of-range pointers are caught by ASan when used
NO_NULL0 = ["-fno-sanitize=pointer-overflow"]
WRAP = ["-Wl,--wrap=fsk_demod_core", "-Wl,--wrap=fsk_demod", "-Wl,--wrap=fsk_demod_sd"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fno-omit-frame-pointer"],
    "fuzz": ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "plain": [],
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _hdr_hash(dirs):
    parts = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(d, "*.h"))):
            parts.append(f)
            parts.append(open(f, "rb").read())
    return _sha(*parts)


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def _install(tmp, final):
    os.replace(tmp, final)


def _object(src, cc, flags, hdrhash):
    body = open(src, "rb").read()
    key = _sha(src, body, cc, " ".join(flags), hdrhash)
    out = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp.o" % os.getpid()
        # the compile runs in an empty directory: nothing is written to /repo
        _run([cc, "-c", src, "-o", tmp] + flags, cwd=BUILD)
        _install(tmp, out)
    return out


def objects(srcs, cc, flags, incs):
    os.makedirs(BUILD, exist_ok=True)
    hh = _hdr_hash(incs)
    flags = flags + ["-I" + i for i in incs]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: _object(s, cc, flags, hh), srcs))


def _link(name, objs, cc, flags):
    key = _sha(name, *objs, cc, " ".join(flags))
    out = os.path.join(BUILD, "bin", key, name)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        _run([cc, "-o", tmp] + objs + flags, cwd=BUILD)
        _install(tmp, out)
    return out


def _src(n):
    return os.path.join(REPO, "src", n)


def lib_objects(variant, opt="-O2", warn=True):
    flags = ["-g", opt, "-w"] + DEFS + SAN[variant]
    return objects([_src(s) for s in LIB_SRCS], "clang", flags, [os.path.join(REPO, "src")])


def cdrv(variant="asan"):
    """Driver for the modem and layer-2 library: one process, binary requests on stdin."""
    objs = lib_objects(variant)
    mine = objects([os.path.join(VERIF, "csrc", "cdrv.c")], "clang", ["-g", "-O1", "-w"] + SAN[variant], [os.path.join(REPO, "src"), os.path.join(VERIF, "csrc")])
    return _link("cdrv_" + variant, mine + objs, "clang", SAN[variant] + WRAP + ["-lm"])


def asn_sources():
    return sorted(glob.glob(os.path.join(REPO, "horusbinaryv3", "clib", "*.c")))


def asn_objects(variant):
    inc = os.path.join(REPO, "horusbinaryv3", "clib")
    san = SAN[variant] + (NO_NULL0 if variant != "plain" else [])
    return objects(asn_sources(), "clang", ["-g", "-O1", "-w"] + ASN_DEFS + san, [inc])


def asndrv(variant="asan"):
    """Driver for the native version 3 codec."""
    inc = os.path.join(REPO, "horusbinaryv3", "clib")
    objs = asn_objects(variant)
    mine = objects([os.path.join(VERIF, "csrc", "asndrv.c")], "clang", ["-g", "-O1", "-w"] + ASN_DEFS + SAN[variant], [inc, os.path.join(VERIF, "csrc")])
    return _link("asndrv_" + variant, mine + objs, "clang", SAN[variant] + ["-lm"])


def fuzz_target(name, kind):
    """libFuzzer target csrc/<name>.c linked with the library ('lib') or the codec ('asn')."""
    incs = [os.path.join(REPO, "src") if kind == "lib" else os.path.join(REPO, "horusbinaryv3", "clib"), os.path.join(VERIF, "csrc")]
    objs = lib_objects("fuzz", "-O1") if kind == "lib" else asn_objects("fuzz")
    defs = [] if kind == "lib" else ASN_DEFS
    mine = objects([os.path.join(VERIF, "csrc", name + ".c")], "clang", ["-g", "-O1", "-w"] + defs + SAN["fuzz"], incs)
    fl = ["-fsanitize=fuzzer,address,undefined", "-lm"]
    if kind == "lib":
        fl += WRAP
    return _link(name, mine + objs, "clang", fl)


TOOLS = {
    "fsk_mod": ["fsk_mod.c"],
    "fsk_demod": ["fsk_demod.c", "modem_probe.c", "octave.c"],
    "fsk_get_test_bits": ["fsk_get_test_bits.c"],
    "fsk_put_test_bits": ["fsk_put_test_bits.c"],
    "horus_demod": ["horus_demod.c"],
    "horus_gen_test_bits": ["horus_gen_test_bits.c"],
}


def tool(name, variant="asan"):
    incs = [os.path.join(REPO, "src")]
    flags = ["-g", "-O2", "-w"] + DEFS + SAN[variant]
    extra = []
    if name == "horus_gen_test_bits":
        incs.append(os.path.join(REPO, "horusbinaryv3", "clib"))
        flags = flags + ASN_DEFS
        extra = asn_objects(variant)
    own = objects([_src(s) for s in TOOLS[name]], "clang", flags, incs)
    return _link(name, own + lib_objects(variant) + extra, "clang", SAN[variant] + ["-lm"])


def cffi_ext(variant="plain"):
    """Directory holding _horus_api_cffi built from /repo's own cffi description."""
    gen = os.path.join(BUILD, "cffi_%s.c" % _sha(open(os.path.join(REPO, "horusdemodlib", "horus_api_build.py"), "rb").read()))
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(gen):
        code = (
            "import sys, importlib.util as u\n"
            "s = u.spec_from_file_location('hb', sys.argv[1]); m = u.module_from_spec(s); s.loader.exec_module(m)\n"
            "m.ffibuilder.emit_c_code(sys.argv[2])\n")
        tmp = gen + ".%d.tmp.c" % os.getpid()
        _run([HORUS_PY, "-B", "-W", "ignore", "-c", code, os.path.join(REPO, "horusdemodlib", "horus_api_build.py"), tmp], cwd=BUILD)
        _install(tmp, gen)
    pyinc = subprocess.check_output([HORUS_PY, "-c", "import sysconfig;print(sysconfig.get_path('include'))"]).decode().strip()
    suffix = subprocess.check_output([HORUS_PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().strip()
    flags = ["-g", "-O2", "-w", "-fPIC", "-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DRUN_TIME_TABLES"]
    cc = "gcc"
    lf = ["-shared"]
    if variant == "asan":
        flags = flags + ["-fsanitize=address"]
        lf = lf + ["-fsanitize=address"]
    objs = objects([gen] + [_src(s) for s in LIB_SRCS], cc, flags, [os.path.join(REPO, "src"), pyinc])
    so = _link("_horus_api_cffi" + suffix, objs, cc, lf + ["-lm"])
    return os.path.dirname(so)


def shim():
    """The preloadable wall clock."""
    objs = objects([os.path.join(VERIF, "csrc", "clockshim.c")], "gcc", ["-O2", "-w", "-fPIC"], [])
    return _link("clockshim.so", objs, "gcc", ["-shared"])


def prune(keep_bytes=1_500_000_000):
    """Keep the cache bounded."""
    files = []
    for root, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if tot <= keep_bytes:
            break
        try:
            os.unlink(p)
            tot -= size
        except OSError:
            pass
