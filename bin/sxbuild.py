"""Builds the instrumented library from /repo's current working tree and links harness binaries against it."""
import concurrent.futures as cf
import glob, hashlib, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SX = os.path.join(VERIF, "sx")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "/usr/lib/llvm-18/bin/clang++" if os.path.exists("/usr/lib/llvm-18/bin/clang++") else "clang++-18"
LLVM_CONFIG = "/usr/lib/llvm-18/bin/llvm-config"
JOBS = os.cpu_count() or 4
EXTS = ("sld", "iidm", "entsoe")
DEFS = ["-DBOOST_%s_%s" % (l, s) for l in ("ATOMIC", "DATE_TIME", "FILESYSTEM", "SYSTEM") for s in ("DYN_LINK", "NO_LIB")]
INCS = ["-I%s/include" % REPO, "-I%s/src" % REPO, "-isystem", "/usr/include/libxml2"] + [x for e in EXTS for x in ("-I%s/extensions/%s/include" % (REPO, e), "-I%s/extensions/%s/src" % (REPO, e))]
BASE = ["-std=gnu++11", "-include", "cmath", "-O1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-pie"]
LIBS = ["-lxml2", "-lboost_date_time", "-lboost_filesystem", "-lboost_system", "-ldl", "-lpthread"]


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def tools():
    os.makedirs(BUILD, exist_ok=True)
    k = digest(*[read(os.path.join(SX, f)) for f in sorted(os.listdir(SX)) if f.endswith((".cpp", ".h"))])
    passso, rt = os.path.join(BUILD, "pass-%s.so" % k), os.path.join(BUILD, "rt-%s.o" % k)
    flags = [x for x in sh([LLVM_CONFIG, "--cxxflags"]).stdout.split() if x.startswith(("-I", "-D"))]
    jobs = []
    if not os.path.exists(passso):
        jobs.append((passso, [CXX, "-std=c++17", "-O1", "-w", "-fPIC", "-shared", "-fno-rtti"] + flags + [os.path.join(SX, "SxPass.cpp")]))
    if not os.path.exists(rt):
        jobs.append((rt, [CXX, "-std=c++17", "-O2", "-w", "-fno-pie", "-I" + Z3 + "/include", "-c", os.path.join(SX, "sx_rt.cpp")]))
    run_jobs(jobs)
    iso = os.path.join(BUILD, "rti-%s.o" % k)
    if not os.path.exists(iso):
        # the run time must not share template instances (std::set<std::string>...) with the instrumented code
        tmp = "%s.%d.tmp" % (iso, os.getpid())
        for cmd in (["ld", "-r", "--force-group-allocation", rt, "-o", tmp],
                    ["objcopy", "--wildcard", "--keep-global-symbol=__sx*", "--keep-global-symbol=main", "--keep-global-symbol=_Z11sx_register*", "--keep-global-symbol=_Zn*", "--keep-global-symbol=_Zd*", "--keep-global-symbol=DW.ref.*", tmp]):
            r = sh(cmd)
            if r.returncode != 0:
                raise BuildError(r.stdout)
        os.replace(tmp, iso)
    return k, passso, iso


def compile_to(out, cmd):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        return r.stdout
    os.replace(tmp, out)
    return None


def run_jobs(jobs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(lambda j: compile_to(*j), jobs):
            if e is not None:
                raise BuildError(e[-6000:])


def core_sources():
    """every library source of the current tree (test support and python/tool directories excluded)"""
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if "/test" in d[len(REPO):] or d.endswith("/tools"):
            continue
        r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)


def ext_sources(e):
    return sorted(glob.glob(os.path.join(REPO, "extensions", e, "src", "**", "*.cpp"), recursive=True))


def header_key():
    h = []
    for root in [os.path.join(REPO, "include"), os.path.join(REPO, "src")] + [os.path.join(REPO, "extensions", e) for e in EXTS]:
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".hxx", ".h")) and "/test" not in d[len(REPO):]:
                    p = os.path.join(d, f)
                    h.append(p[len(REPO):].encode()), h.append(read(p))
    return digest(*h)


def chunks(srcs, n):
    """balanced unity chunks, stable for a given list of files"""
    n = max(1, min(n, len(srcs)))
    sized = sorted(srcs, key=lambda p: (-(os.path.getsize(p) + 6000), p))
    bins = [[0, []] for _ in range(n)]
    for p in sized:
        b = min(bins, key=lambda b: b[0])
        b[0] += os.path.getsize(p) + 6000
        b[1].append(p)
    return [sorted(b[1]) for b in bins]


def build_lib(exts, passkey, passso, hk, plain=False):
    flags = BASE + DEFS + INCS + ([] if plain else ["-fpass-plugin=" + passso])
    units = chunks(core_sources(), 22)
    for e in exts:
        units += chunks(ext_sources(e), 3)
    objs, jobs = [], []

    def unit(files):
        k = digest(passkey, hk, " ".join(flags), *[x for f in files for x in (f, read(f))])
        o = os.path.join(BUILD, "u-%s.o" % k)
        if os.path.exists(o):
            return [o]
        src = os.path.join(BUILD, "u-%s.cpp" % k)
        with open(src, "w") as f:
            f.write("".join('#include "%s"\n' % p for p in files))
        err = compile_to(o, [CXX] + flags + ["-c", src])
        os.unlink(src)
        if err is None:
            return [o]
        if len(files) == 1:
            raise BuildError(err[-6000:])
        # names of file-local entities clash inside this unit: split it
        m = len(files) // 2
        if len(files) > 4:
            return unit(files[:m]) + unit(files[m:])
        return [x for f in files for x in unit([f])]

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(unit, units):
            objs += r
    return objs


def build(harness, exts=(), verbose=False, plain=False):
    """returns the path of the executable holding the harnesses of one source file"""
    t0 = time.time()
    pk, passso, rt = tools()
    hk = header_key()
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    common = [read(p) for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h*")))]
    flags = BASE + DEFS + INCS + ["-I" + SX, "-I" + os.path.join(VERIF, "harness")] + ([] if plain else ["-fpass-plugin=" + passso])
    p = "p" if plain else ""
    ho = os.path.join(BUILD, "%sh-%s-%s.o" % (p, harness, digest(pk, hk, read(hsrc), *common)))
    so = os.path.join(BUILD, "%ss-%s.o" % (p, pk))
    jobs = []
    if not os.path.exists(ho):
        jobs.append((ho, [CXX] + flags + ["-c", hsrc]))
    if not plain and not os.path.exists(so):
        jobs.append((so, [CXX] + flags + ["-c", os.path.join(SX, "sx_strings.cpp")]))
    with cf.ThreadPoolExecutor(2) as ex:
        side = ex.submit(run_jobs, jobs)
        objs = build_lib(exts, pk, passso, hk, plain)
        side.result()
    exe = os.path.join(BUILD, "%sx-%s-%s" % (p, harness, digest(ho, so, rt, *objs)))
    if not os.path.exists(exe):
        e = compile_to(exe, [CXX, "-no-pie", "-fuse-ld=lld" if os.path.exists("/usr/lib/llvm-18/bin/ld.lld") else "-O1", ho] + ([] if plain else [so]) + [rt] + objs + [Z3 + "/lib/libz3.so", "-Wl,-rpath," + Z3 + "/lib"] + LIBS)
        if e is not None:
            raise BuildError(e[-6000:])
    if verbose:
        print("built %s in %.1fs" % (harness, time.time() - t0), file=sys.stderr)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:], True))
