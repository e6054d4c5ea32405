"""Front end: compiles /repo's current sources to LLVM bitcode (never runs them), links each
configuration and dumps the resolved program (see irdump.cpp) for the rules."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PDC_REPO", "/repo")
IRDUMP = os.path.join(VERIF, "build", "irdump")
CACHE = os.path.join(VERIF, "build", "cache")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, no instances, sources do not compile)."""


def _g(pat):
    return sorted(glob.glob(os.path.join(REPO, pat), recursive=True))


def sources(config):
    def noexcl(fs):
        return [f for f in fs if not f.endswith(("_test.c", "/pdc_dt_conv.c")) and "/serde/" not in f]
    commons = noexcl(_g("src/commons/**/*.c"))
    if config == "commons":
        return [(f, []) for f in commons]
    if config == "client":
        fs = noexcl(_g("src/api/**/*.c")) + noexcl(_g("src/utils/*.c")) + \
            [REPO + "/src/server/pdc_client_server_common.c"] + \
            [f for f in _g("src/server/pdc_server_region/*.c") if not f.endswith("pdc_server_data.c")]
        return [(f, []) for f in fs]
    if config == "server":
        fs = noexcl(_g("src/server/*.c")) + noexcl(_g("src/server/dablooms/*.c")) + \
            noexcl(_g("src/server/pdc_server_analysis/*.c")) + noexcl(_g("src/server/pdc_server_region/*.c")) + \
            _g("src/utils/pdc_region_utils*.c") + \
            [REPO + "/src/api/pdc_analysis/pdc_analysis_common.c",
             REPO + "/src/api/pdc_transform/pdc_transforms_common.c",
             REPO + "/src/api/pdc_analysis/pdc_hist_pkg.c"]
        fs = [f for f in fs if not f.endswith("pdc_server_main.c")]
        return [(f, ["-DIS_PDC_SERVER=1"]) for f in fs]
    if config == "wire":
        t = VERIF + "/stubs/all_headers.c"
        return [(t, ["-Xclang", "-femit-all-decls"]), (t, ["-Xclang", "-femit-all-decls", "-DIS_PDC_SERVER=1"])]
    if config == "nosfx":
        v = ["-include", VERIF + "/stubs/variant/nosfx.h"]
        return [(f, v) for f in commons if "/index/" in f or "/utils/" in f]
    raise ValueError(config)


def cflags():
    dirs = []
    for top in ("src/commons", "src/api", "src/server", "src/utils", "src/include"):
        for h in _g(top + "/**/*.h"):
            d = os.path.dirname(h)
            if d not in dirs:
                dirs.append(d)
    fl = ["-std=gnu99", "-fcommon", "-I" + VERIF + "/stubs/mercury"]
    fl += ["-I" + d for d in sorted(dirs)]
    fl += ["-I" + VERIF + "/stubs/config", "-I" + REPO,
           "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
           "-DHAVE_MALLOC_USABLE_SIZE", "-DPDC_SERVER_CACHE_MAX_GB=3", "-DPDC_SERVER_CACHE_FLUSH_TIME=30",
           "-DPDC_LUSTRE_TOTAL_OST=1", "-w", "-Wno-error=implicit-function-declaration",
           "-Wno-error=int-conversion", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c"]
    return fl


def _hdrhash():
    h = hashlib.sha256()
    for top in (REPO + "/src", VERIF + "/stubs"):
        for f in sorted(glob.glob(top + "/**/*.h", recursive=True)):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def ensure_irdump():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = IRDUMP + ".sha"
    if os.path.exists(IRDUMP) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    cfg = "/usr/lib/llvm-18/bin/llvm-config"
    cxx = subprocess.check_output([cfg, "--cxxflags"], text=True).split()
    ld = subprocess.check_output([cfg, "--ldflags"], text=True).split()
    tmp = IRDUMP + ".%d" % os.getpid()
    r = subprocess.run(["clang++", "-O1", "-w"] + cxx + [src, "-o", tmp] + ld + ["-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("irdump does not build: " + r.stderr[-2000:])
    os.replace(tmp, IRDUMP)
    open(stamp, "w").write(want)


def bitcode(config, hdr=None):
    hdr = hdr or _hdrhash()
    fl = cflags()
    os.makedirs(CACHE, exist_ok=True)

    def one(item):
        f, extra = item
        key = hashlib.sha256((hdr + f + " ".join(extra) + " ".join(fl)).encode() + open(f, "rb").read()).hexdigest()[:32]
        out = os.path.join(CACHE, key + ".bc")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run(["clang"] + fl + extra + [f, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("does not compile for analysis: %s\n%s" % (f, r.stderr[-1500:]))
            os.replace(tmp, out)
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sources(config)))


def dump_paths(config, force_inline=(), keep=True, passes="", only=None):
    """Paths of the JSON-lines dumps (one per translation unit) of a configuration."""
    ensure_irdump()
    bcs = bitcode(config)
    srcs = [f for f, _ in sources(config)]
    keepf = os.path.join(VERIF, "engine", "known_functions.txt")
    base = ("||" + "|".join(force_inline) + str(keep) + passes).encode() + open(keepf, "rb").read() + \
        open(IRDUMP + ".sha", "rb").read()

    def one(k):
        h = hashlib.sha256(bcs[k].encode() + base)
        out = os.path.join(CACHE, "d" + h.hexdigest()[:30] + ".jsonl")
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp" % (os.getpid(), k)
            cmd = [IRDUMP, "-o", tmp, "--tag", os.path.basename(srcs[k])[:-2]]
            if keep:
                cmd += ["--keep", keepf]
            if passes:
                cmd += ["--passes", passes]
            for f in force_inline:
                cmd += ["--inline", f]
            r = subprocess.run(cmd + [bcs[k]], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("irdump failed: " + r.stderr[-1500:])
            os.replace(tmp, out)
        return out
    idx = [k for k in range(len(bcs)) if only is None or any(srcs[k].endswith(o) for o in only)]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, idx))


def compile_snippets(files, extra=()):
    """Self-test inputs: compiles files under /verif/selftest and dumps them."""
    ensure_irdump()
    d = tempfile.mkdtemp(prefix="pdcself")
    try:
        outs = []
        for f in files:
            o = os.path.join(d, os.path.basename(f) + ".bc")
            r = subprocess.run(["clang"] + cflags() + list(extra) + [f, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("self-test does not compile: %s\n%s" % (f, r.stderr[-1500:]))
            outs.append(o)
        mods = []
        for k, o in enumerate(outs):
            j = os.path.join(d, "o%d.jsonl" % k)
            r = subprocess.run([IRDUMP, "-o", j, o], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("irdump failed: " + r.stderr[-1500:])
            mods.append([json.loads(l) for l in open(j)])
        return mods
    finally:
        shutil.rmtree(d, ignore_errors=True)
