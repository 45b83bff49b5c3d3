"""Build pipeline shared by all checks: /repo's current sources -> hilapp -> generated C++ -> LLVM IR.

Everything is built below CACHE (git-ignored), keyed by a content hash of what it is built from, so that a run
on a changed /repo never sees results of another tree.  Nothing is written into /repo.
"""
import threading, hashlib, os, subprocess, sys, shutil, json, fcntl, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HILA_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
CLANG = "clang++-18"
LIBS = os.path.join(REPO, "libraries")
NJ = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=800, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                       errors="replace", env=env)
    return p.returncode, p.stdout, p.stderr


def tree_hash(paths, exts=None, extra=""):
    h = hashlib.sha256(extra.encode())
    files = []
    for p in paths:
        if os.path.isfile(p):
            files.append(p)
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("build", "bin", ".git", "docs"))
                for f in fs:
                    if exts is None or os.path.splitext(f)[1] in exts or f.startswith("Makefile"):
                        files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:20]


_lock_fh = None
_tlock = threading.Lock()


def lock():
    """One builder at a time (checks normally run one after another)."""
    global _lock_fh
    os.makedirs(CACHE, exist_ok=True)
    with _tlock:
        if _lock_fh is None:
            fh = open(os.path.join(CACHE, ".lock"), "w")
            fcntl.flock(fh, fcntl.LOCK_EX)
            _lock_fh = fh


def unlock():
    global _lock_fh
    if _lock_fh is not None:
        _lock_fh.close()
        _lock_fh = None


def prune(prefix, keep):
    """Keep the cache small: at most the 3 newest directories of one kind."""
    ds = sorted(glob.glob(os.path.join(CACHE, prefix + "-*")), key=os.path.getmtime, reverse=True)
    for d in ds[3:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


PCH = "".join("#include %s\n" % h for h in """<string> <sstream> <iostream> <vector> <list>
"clang/Tooling/Tooling.h" "clang/Rewrite/Core/Rewriter.h" "clang/Frontend/ASTConsumers.h"
"clang/AST/RecursiveASTVisitor.h" "clang/AST/ASTConsumer.h" "clang/AST/AST.h" "clang/Frontend/FrontendActions.h"
"clang/Frontend/CompilerInstance.h" "llvm/Support/CommandLine.h" "clang/Tooling/CommonOptionsParser.h"
"clang/AST/ASTLambda.h" "llvm/Support/Error.h" """.split())


def hilapp():
    """Build hilapp from /repo/hilapp/src; returns the path of the binary."""
    key = tree_hash([os.path.join(REPO, "hilapp", "src"), os.path.join(REPO, "hilapp", "Makefile"),
                     os.path.join(LIBS, "hila_signatures.h")])
    d = os.path.join(CACHE, "hilapp-" + key)
    binp = os.path.join(d, "hilapp", "build", "hilapp")
    if os.path.exists(os.path.join(d, "ok")):
        return binp
    lock()
    if os.path.exists(os.path.join(d, "ok")):
        return binp
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "libraries"))
    shutil.copytree(os.path.join(REPO, "hilapp"), os.path.join(d, "hilapp"),
                    ignore=shutil.ignore_patterns("build", "bin"))
    os.makedirs(os.path.join(d, "hilapp", "build"))
    os.makedirs(os.path.join(d, "hilapp", "bin"))
    shutil.copy(os.path.join(LIBS, "hila_signatures.h"), os.path.join(d, "libraries"))
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "MFLAGS", "CXXFLAGS", "CFLAGS", "LLVM_VERSION", "NDIM", "ARCH", "OPTS")}
    flags = "-fno-rtti -std=c++17 -O0"
    # a precompiled header of the clang headers the sources include anyway: only build time
    hdr = os.path.join(d, "pch.h")
    with open(hdr, "w") as f:
        f.write(PCH)
    llvmflags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    rc, out, err = sh([CLANG, "-x", "c++-header"] + flags.split() + llvmflags +
                      ["-fpch-instantiate-templates", hdr, "-o", hdr + ".pch"])
    mk = ["make", "-C", os.path.join(d, "hilapp"), "-j%d" % NJ, "LLVM_VERSION=18", "GIT_SHA=local"]
    rc2 = 1
    if rc == 0:
        rc2, out, err = sh(mk + ["CXXFLAGS=%s -include-pch %s.pch" % (flags, hdr), "build/hilapp"], env=env)
    if rc2 != 0:
        rc2, out, err = sh(mk + ["CXXFLAGS=" + flags, "build/hilapp"], env=env)
    if rc2 != 0:
        raise BuildError("hilapp does not build:\n" + (out + err)[-3000:])
    if os.path.exists(hdr + ".pch"):
        os.remove(hdr + ".pch")
    for o in glob.glob(os.path.join(d, "hilapp", "build", "*.o")):
        os.remove(o)
    open(os.path.join(d, "ok"), "w").close()
    prune("hilapp", d)
    return binp


def tool(name):
    """Build the analysis tool /verif/tools/<name>*.cpp against LLVM/clang 18."""
    src = sorted(glob.glob(os.path.join(VERIF, "tools", name, "*.cpp")) +
                 glob.glob(os.path.join(VERIF, "tools", name, "*.h")))
    key = tree_hash(src, extra="v1")
    d = os.path.join(CACHE, "tool-%s-%s" % (name, key))
    binp = os.path.join(d, name)
    if os.path.exists(binp):
        return binp
    lock()
    if os.path.exists(binp):
        return binp
    os.makedirs(d, exist_ok=True)
    cpps = [s for s in src if s.endswith(".cpp")]
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    ld = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs", "--system-libs"], text=True).split()

    def comp(c):
        o = os.path.join(d, os.path.basename(c) + ".o")
        rc, out, err = sh(["g++", "-c", "-O1", "-std=c++17", "-w"] + [f for f in flags if not f.startswith("-std")] +
                          [c, "-o", o])
        if rc:
            raise BuildError("tool %s: %s" % (c, err[-3000:]))
        return o
    with ThreadPoolExecutor(NJ) as ex:
        objs = list(ex.map(comp, cpps))
    rc, out, err = sh(["g++"] + objs + ["-o", binp + ".tmp"] + ld)
    if rc:
        raise BuildError("tool link %s: %s" % (name, err[-3000:]))
    os.rename(binp + ".tmp", binp)
    prune("tool-" + name, d)
    return binp


def mpi_inc():
    out = subprocess.check_output(["mpic++", "--showme:compile"], text=True).split()
    return out


# ---------------------------------------------------------------------------------------------------------------
# translation units

def inc(cwd_inc=True):
    r = []
    if cwd_inc:
        r += ["-I.", "-I./src"]
    return r + ["-I" + LIBS, "-I" + LIBS + "/plumbing", "-I" + LIBS + "/datatypes", "-I" + LIBS + "/tools"]



FLAVOUR = {
    # hilapp options, macros for hilapp and compiler, compiler-only flags
    "vanilla": ([], [], []),
    "openmp": (["-target:openmp"], ["-DOPENMP"], ["-fopenmp", "-I" + os.path.join(VERIF, "lib", "ompinc")]),
    "avx": (["-target:AVX"], ["-DAVX", "-DSUBNODE_LAYOUT"], ["-mavx2", "-mfma"]),
}


class Unit:
    def __init__(self, name, src, cwd, defs, flavour="vanilla", hopts=(), extra_inc=()):
        self.name, self.src, self.cwd, self.defs = name, src, cwd, list(defs)
        self.flavour, self.hopts, self.extra_inc = flavour, list(hopts), list(extra_inc)

    def args(self):
        h, d, c = FLAVOUR[self.flavour]
        return h + self.hopts, self.defs + d, c


LIB_SRC = ["initialize", "input", "cmdline", "random", "lattice", "map_node_layout", "memalloc", "timing",
           "test_gathers", "com_mpi", "memory_pool", "fft"]


def lib_units(ndim, flavour="vanilla", defs=()):
    us = []
    layout = "setup_layout_vector" if flavour == "avx" else "setup_layout_generic"
    for s in LIB_SRC + [layout]:
        us.append(Unit("lib%d_%s_%s" % (ndim, flavour, s), os.path.join(LIBS, "plumbing", s + ".cpp"),
                       os.path.join(LIBS, "plumbing"), ["-DNDIM=%d" % ndim] + list(defs), flavour))
    us.append(Unit("lib%d_%s_extended" % (ndim, flavour), os.path.join(LIBS, "datatypes", "extended.cpp"),
                   os.path.join(LIBS, "datatypes"), ["-DNDIM=%d" % ndim] + list(defs), flavour))
    us.append(Unit("lib%d_%s_multicanonical" % (ndim, flavour), os.path.join(LIBS, "tools", "multicanonical.cpp"),
                   os.path.join(LIBS, "tools"), ["-DNDIM=%d" % ndim] + list(defs), flavour))
    return us


SBC = ["-DSPECIAL_BOUNDARY_CONDITIONS"]


def app(name, file, defs, flavour="vanilla", src=True, hopts=(), tag=""):
    cwd = os.path.join(REPO, "applications", name)
    p = os.path.join(cwd, "src" if src else "", file + ".cpp")
    return Unit("app_%s_%s_%s%s" % (name, file, flavour, tag), p, cwd, defs, flavour, hopts)


def driver(file, defs, flavour="vanilla", tag="", hopts=()):
    return Unit("drv_%s_%s%s" % (file, flavour, tag), os.path.join(VERIF, "drivers", file + ".cpp"),
                os.path.join(VERIF, "drivers"), defs, flavour, hopts)


def units_key(u, hp):
    return None


_src_hash = {}


def src_hash():
    if "h" not in _src_hash:
        _src_hash["h"] = tree_hash([LIBS, os.path.join(REPO, "applications"), os.path.join(VERIF, "drivers")],
                                   exts={".h", ".hpp", ".cpp", ".hh", ".inc"}, extra="pl4")
    return _src_hash["h"]


def gen_dir(hp):
    d = os.path.join(CACHE, "gen-" + hashlib.sha256((hp + src_hash()).encode()).hexdigest()[:20])
    if not os.path.isdir(d):
        os.makedirs(d)
        prune("gen", d)
    os.utime(d)
    return d


def make_cpt(u, hp, d):
    """Run hilapp on a unit: returns path of generated source."""
    cpt = os.path.join(d, u.name + ".cpt")
    if os.path.exists(cpt):
        return cpt
    h, defs, c = u.args()
    tmp = cpt + ".tmp%d" % os.getpid()
    stdinc = []
    if u.flavour == "openmp":
        stdinc = clang_builtin_inc()
    rc, out, err = sh([hp] + h + stdinc + ["-std=c++17"] + defs + inc() + u.extra_inc + [u.src, "-o", tmp], cwd=u.cwd)
    if rc != 0 or not os.path.exists(tmp):
        raise BuildError("hilapp fails on %s:\n%s" % (u.src, (out + err)[-3000:]))
    open(cpt + ".log", "w").write(out + err)
    os.rename(tmp, cpt)
    return cpt


_bi = []


def clang_builtin_inc():
    # the include directories hilapp's Makefile-driven openmp build passes
    if not _bi:
        rc, out, err = sh(["clang++-18", "-print-resource-dir"])
        _bi.append("-I" + out.strip() + "/include")
    return _bi


def make_bc(u, hp, d, passes="sroa,mem2reg,simplifycfg"):
    bc = os.path.join(d, u.name + ".bc")
    if os.path.exists(bc):
        return bc
    cpt = make_cpt(u, hp, d)
    h, defs, c = u.args()
    raw = bc + ".raw%d" % os.getpid()
    rc, out, err = sh([CLANG, "-x", "c++", "--std=c++17", "-w", "-fignore-exceptions", "-fno-rtti", "-O1", "-Xclang",
                       "-disable-llvm-passes", "-g", "-emit-llvm", "-c"] + c + defs + inc() + u.extra_inc + mpi_inc() +
                      [cpt, "-o", raw], cwd=u.cwd)
    if rc != 0:
        raise BuildError("generated code of %s does not compile:\n%s" % (u.src, err[-3000:]))
    tmp = bc + ".tmp%d" % os.getpid()
    rc, out, err = sh(["opt-18", "-passes=" + passes, raw, "-o", tmp])
    os.remove(raw)
    if rc != 0:
        raise BuildError("opt failed on %s: %s" % (u.name, err[-2000:]))
    os.rename(tmp, bc)
    return bc


def build(units, what=make_bc):
    """Build many units in parallel -> {name: path}."""
    hp = hilapp()
    d = gen_dir(hp)
    lock()
    with ThreadPoolExecutor(NJ) as ex:
        res = list(ex.map(lambda u: what(u, hp, d), units))
    return {u.name: r for u, r in zip(units, res)}
