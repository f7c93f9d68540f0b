"""Builds the library sources of /repo (current working tree) together with a harness.

Objects are cached under /verif/build by the hash of the preprocessed source and the flags, so
a change in what is compiled is always seen and nothing depends on time stamps.
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAIN = "/opt/bezdeps/main"
HCD = "/opt/bezdeps/hcd"
SP = "lib/python3.12/site-packages/cmeel.prefix"
BUILD = os.path.join(VERIF, "build")

COMMON = [
    "-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30", "-DCLP_FOUND",
    "-DCURVES_WITH_PINOCCHIO_SUPPORT", "-DUSE_GLPK_SOLVER=1", "-DqpOASES_FOUND",
    "-I%s" % os.path.join(VERIF, "src"), "-I%s/include" % REPO, "-isystem", "%s/%s/include" % (MAIN, SP),
    "-isystem", "%s/%s/include/eigen3" % (MAIN, SP), "-isystem", "%s/%s/include" % (HCD, SP),
    "-isystem", "%s/%s/include/cddlib" % (HCD, SP), "-isystem", "%s/%s/include/coin" % (HCD, SP),
    "-w", "-std=gnu++17", "-fPIC",
]
# The library is built as released (NDEBUG) but Eigen's own bound and size checks stay on.
ASSERT = ["-DNDEBUG", "-include", os.path.join(VERIF, "src", "eigen_check.h")]
VARIANTS = {
    "fast": ("g++", ["-O1"] + ASSERT, []),
    "san": ("clang++", ["-O1", "-g1", "-DPBT_SAN", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,enum",
                        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + ASSERT,
            ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,enum"]),
    "tsan": ("clang++", ["-O1", "-g1", "-DPBT_SAN", "-DPBT_TSAN", "-fsanitize=thread"] + ASSERT, ["-fsanitize=thread"]),
    "fuzz": ("clang++", ["-O1", "-g1", "-DPBT_SAN", "-fsanitize=fuzzer-no-link,address,undefined",
                         "-fno-sanitize=vptr,function,enum", "-fno-sanitize-recover=all"] + ASSERT,
             ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize=vptr,function,enum"]),
}
LINK = ["-L%s/%s/lib" % (MAIN, SP), "-L%s/%s/lib" % (HCD, SP), "-Wl,-rpath,%s/%s/lib" % (MAIN, SP),
        "-Wl,-rpath,%s/%s/lib" % (HCD, SP), "-Wl,--disable-new-dtags", "-Wl,-z,muldefs", "-lhpp-centroidal-dynamics", "-lglpk"]


def env():
    e = dict(os.environ)
    for k in ("CPATH", "CXXFLAGS", "CFLAGS", "LDFLAGS", "PYTHONPATH"):
        e.pop(k, None)
    e["LD_LIBRARY_PATH"] = "%s/%s/lib:%s/%s/lib" % (MAIN, SP, HCD, SP)
    e["LC_ALL"] = "C.UTF-8"
    return e


def _run(cmd, **kw):
    return subprocess.run(cmd, env=env(), **kw)


# the binding and its harness also need the Python headers
PY = ["-isystem", "/usr/include/python3.12", "-isystem", "%s/lib/python3.12/site-packages/numpy/core/include" % MAIN]
PER_SOURCE = {"c18.cpp": PY, "bezier_com_traj.cpp": PY}


def source_path(s):
    """Harness sources live in src; repo:PATH names a source of the repository."""
    return os.path.join(REPO, s[5:]) if s.startswith("repo:") else os.path.join(VERIF, "src", s)


def compile_one(src, variant):
    cxx, flags, _ = VARIANTS[variant]
    extra = PER_SOURCE.get(os.path.basename(src), [])
    fl = COMMON + flags + list(extra)
    pp = _run([cxx] + fl + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode:
        raise RuntimeError("cannot preprocess %s:\n%s" % (src, pp.stderr.decode()[-4000:]))
    h = hashlib.sha256()
    h.update(repr([cxx] + [f for f in fl]).encode())
    h.update(pp.stdout)
    obj = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (os.path.basename(src).replace(".", "_"), variant,
                                                     h.hexdigest()[:24]))
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        t = time.time()
        r = _run([cxx] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("cannot compile %s:\n%s" % (src, r.stdout.decode()[:6000]))
        os.rename(tmp, obj)
        if os.environ.get("VERIF_VERBOSE"):
            print("compiled %s (%s) in %.1f s" % (os.path.basename(src), variant, time.time() - t), file=sys.stderr)
    return obj


def build_many(targets):
    """targets: list of (name, variant, [harness sources], [link extra]) -> {name: binary}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lib = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True), key=lambda p: "waypoints" not in p)
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for variant in sorted(set(t[1] for t in targets)):
            for s in lib:
                jobs[(s, variant)] = ex.submit(compile_one, s, variant)
        for name, variant, srcs, _ in targets:
            for s in srcs:
                p = source_path(s)
                if (p, variant) not in jobs:
                    jobs[(p, variant)] = ex.submit(compile_one, p, variant)
        objs = {k: f.result() for k, f in jobs.items()}
    out = {}
    for name, variant, srcs, link in targets:
        cxx, _, lflags = VARIANTS[variant]
        os_ = [objs[(source_path(s), variant)] for s in srcs] + [objs[(s, variant)] for s in lib]
        h = hashlib.sha256(repr(os_ + link).encode()).hexdigest()[:20]
        binp = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, h))
        if not os.path.exists(binp):
            tmp = binp + ".tmp%d" % os.getpid()
            r = _run([cxx] + lflags + os_ + LINK + list(link) + ["-o", tmp], stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError("cannot link %s:\n%s" % (name, r.stdout.decode()[:6000]))
            os.rename(tmp, binp)
        out[name] = binp
    return out
