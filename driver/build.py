"""Builds harnesses: instrumented (symbolic) and native (replay) programs from /repo's working tree."""
import hashlib, os, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
OPT = "opt-18" if shutil.which("opt-18") else "opt"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
LLVMCFG = "llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config"
GXX = "g++"
SRC = os.path.join(REPO, "src", "tinymesh")

INC = ["-I" + os.path.join(VERIF, "symfp", "rt"), "-I" + os.path.join(VERIF, "harness"),
       "-I" + os.path.join(VERIF, "stubs"), "-I" + SRC, "-I" + os.path.join(REPO, "src"),
       "-isystem", "/usr/include/eigen3"]
SYMFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fPIC",
            "-ffp-contract=off", "-fno-math-errno", "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_ASSERTIONS",
            "-DSYMFP=1", "-w"]
NATFLAGS = ["-std=c++17", "-O2", "-g", "-fPIC", "-pthread", "-w"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_locks = {}
_glock = threading.Lock()


def cached(path, make):
    """make(tmp) writes tmp; the result appears atomically at path."""
    with _glock:
        lk = _locks.setdefault(path, threading.Lock())
    with lk:
        if not os.path.exists(path):
            tmp = path + ".tmp%d" % os.getpid()
            make(tmp)
            os.replace(tmp, path)
    return path


def stub_dirs(h):
    """Directories of library stand-ins that the harness asks for, searched before everything else."""
    return ["-I" + os.path.join(VERIF, "stubs", d) for d in h.get("inc", [])]


def preprocess(compiler, flags, src):
    r = subprocess.run([compiler, *flags, *INC, "-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise BuildError("cannot preprocess %s:\n%s" % (src, r.stderr.decode()[-4000:]))
    return r.stdout


def tools():
    """Pass plugin and runtime objects."""
    os.makedirs(OUT, exist_ok=True)
    psrc = os.path.join(VERIF, "symfp", "pass", "SymFP.cpp")
    pkey = digest(open(psrc, "rb").read())
    plug = os.path.join(OUT, "libsymfp-%s.so" % pkey)

    def mkplug(tmp):
        cxxf = [f for f in sh([LLVMCFG, "--cxxflags"]).split() if not f.startswith("-std=")]
        sh([CLANG, "-std=c++17", "-O1", "-fPIC", "-shared", "-w", *cxxf, psrc, "-o", tmp])

    rtd = os.path.join(VERIF, "symfp", "rt")
    rkey = digest(*[open(os.path.join(rtd, f), "rb").read() for f in sorted(os.listdir(rtd))])
    rt = os.path.join(OUT, "rt-%s.o" % rkey)
    ex = os.path.join(OUT, "expr-%s.o" % rkey)
    nat = os.path.join(OUT, "native-%s.o" % rkey)
    race = os.path.join(OUT, "race-%s.o" % rkey)

    def mkrt(tmp):
        sh([GXX, "-std=c++17", "-O2", "-g", "-fPIC", "-w", "-I" + Z3 + "/include", "-c", os.path.join(rtd, "rt.cpp"), "-o", tmp])

    def mkex(tmp):
        sh([GXX, "-std=c++17", "-O2", "-g", "-fPIC", "-w", "-c", os.path.join(rtd, "expr.cpp"), "-o", tmp])

    def mknat(tmp):
        sh([GXX, *NATFLAGS, "-I" + rtd, "-c", os.path.join(rtd, "native.cpp"), "-o", tmp])

    def mkrace(tmp):
        sh([GXX, "-std=c++17", "-O2", "-g", "-fPIC", "-w", "-c", os.path.join(rtd, "race.cpp"), "-o", tmp])

    with ThreadPoolExecutor(5) as ex_:
        fs = [ex_.submit(cached, race, mkrace), ex_.submit(cached, plug, mkplug), ex_.submit(cached, rt, mkrt), ex_.submit(cached, ex, mkex), ex_.submit(cached, nat, mknat)]
        for f in fs:
            f.result()
    return plug, [rt, ex], nat, race


def harness_src(h):
    return os.path.join(VERIF, "harness", h["src"])


def build_sym(h):
    """h: dict(src, sources=[relative to src/tinymesh], defs=[], asan=bool, openmp=bool, optflags=[])"""
    plug, rtobjs, _, race = tools()
    if h.get("openmp"):
        rtobjs = [*rtobjs, race, "-Wl,--wrap=free"]
    flags = list(SYMFLAGS) + stub_dirs(h) + h.get("defs", []) + h.get("symdefs", [])
    if h.get("asan"):
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if h.get("openmp"):
        flags += ["-fopenmp", "-I" + os.path.join(VERIF, "stubs", "omp")]
    srcs = [harness_src(h)] + [os.path.join(SRC, s) for s in h["sources"]]

    def one(src):
        pre = preprocess(CLANG, flags, src)
        bc = os.path.join(OUT, "bc-%s.bc" % digest(pre, " ".join(flags)))
        return cached(bc, lambda tmp: sh([CLANG, *flags, *INC, "-c", "-emit-llvm", src, "-o", tmp]))

    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, srcs))
    of = h.get("optflags", [])
    key = digest(*bcs, *rtobjs, plug, " ".join(of), str(h.get("asan")))
    exe = os.path.join(OUT, "sym-%s" % key)

    def mk(tmp):
        linked = tmp + ".bc"
        sh([LINK, *bcs, "-o", linked])
        instr = tmp + ".i.bc"
        out = sh([OPT, "-load-pass-plugin", plug, *of, "-passes=internalize,globaldce,symfp-pre,function(sroa),symfp-instr,default<O1>",
                  "-internalize-public-api-list=sym_harness,__symfp_fn_names,__symfp_fn_count", linked, "-o", instr])
        with open(exe + ".log", "w") as f:
            f.write(out)
        obj = tmp + ".o"
        sh([CLANG, "-O1", "-fPIC", "-Wno-override-module", *(["-fsanitize=address"] if h.get("asan") else []), "-c", instr, "-o", obj])
        link = [CLANG] if h.get("asan") else [GXX]
        sh([*link, *(["-fsanitize=address"] if h.get("asan") else []), obj, *rtobjs, "-o", tmp, "-L" + Z3 + "/lib", "-lz3",
            "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp", "-lpthread", "-lstdc++fs"])
        for f in (linked, instr, obj):
            os.unlink(f)

    return cached(exe, mk)


def build_native(h):
    plug, _, nat, race = tools()
    of = h.get("optflags", [])
    races = "-symfp-races" in of
    flags = list(NATFLAGS) + stub_dirs(h) + h.get("defs", []) + h.get("natdefs", [])
    if h.get("nat_asan", h.get("asan")):
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if h.get("redirect"):
        # replay needs the redirected library functions (random choices): clang + redirect pass only
        flags += []
    if h.get("openmp"):
        flags += ["-fopenmp", "-I" + os.path.join(VERIF, "stubs", "omp")]
    srcs = [harness_src(h)] + [os.path.join(SRC, s) for s in h["sources"]]
    cc = CLANG if h.get("redirect") else GXX

    def one(src):
        pre = preprocess(cc, flags, src)
        ob = os.path.join(OUT, "nat-%s.o" % digest(pre, " ".join(flags), cc, *((*of, plug) if h.get("redirect") else ())))

        def mk(tmp):
            if h.get("redirect"):
                bc = tmp + ".bc"
                sh([cc, *flags, *INC, "-Xclang", "-disable-llvm-passes", "-c", "-emit-llvm", src, "-o", bc])
                bc2 = tmp + ".2.bc"
                sh([OPT, "-load-pass-plugin", plug, "-symfp-redirect-only", "-symfp-real-hash", *[f for f in of if f != "-symfp-real-hash"],
                    "-passes=symfp-pre" + (",function(sroa),symfp-instr" if races else ""), bc, "-o", bc2])
                sh([cc, "-O2", "-fPIC", "-Wno-override-module", *(["-fsanitize=address"] if "-fsanitize=address" in flags else []), "-c", bc2, "-o", tmp])
                os.unlink(bc)
                os.unlink(bc2)
            else:
                sh([cc, *flags, *INC, "-c", src, "-o", tmp])
        return cached(ob, mk)

    with ThreadPoolExecutor(8) as ex:
        obs = list(ex.map(one, srcs))
    exe = os.path.join(OUT, "natx-%s" % digest(*obs, nat, race if h.get("openmp") else "", " ".join(flags)))

    def mk(tmp):
        sh([cc, *(["-fsanitize=address"] if "-fsanitize=address" in flags else []), *obs, nat, *([race, "-Wl,--wrap=free"] if h.get("openmp") else []), "-o", tmp, "-lpthread", "-lstdc++fs"])

    return cached(exe, mk)


def clean_old(max_bytes=3 << 30):
    try:
        fs = [(os.path.getmtime(os.path.join(OUT, f)), os.path.getsize(os.path.join(OUT, f)), os.path.join(OUT, f)) for f in os.listdir(OUT)]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= max_bytes:
            break
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass
