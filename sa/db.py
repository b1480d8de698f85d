"""Extraction driver: builds the libTooling extractor and dumps the resolved
program of /repo's *current working tree* (one record per function/class/...)."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

# translation units that exist in the tree but are not part of the configured
# build (solver not available); they are not analysed.
NOT_BUILT = {
    "IpSpralSolverInterface.cpp", "IpPardisoMKLSolverInterface.cpp",
    "IpWsmpSolverInterface.cpp", "IpMa28TDependencyDetector.cpp",
    "IpIterativeWsmpSolverInterface.cpp",
}
SRC_DIRS = ["src/Common", "src/LinAlg", "src/LinAlg/TMatrices", "src/Algorithm",
            "src/Algorithm/LinearSolvers", "src/contrib/CGPenalty",
            "src/Interfaces", "src/Apps/AmplSolver",
            "contrib/sIPOPT/src", "contrib/sIPOPT/AmplSolver",
            "contrib/RInterface/src"]
INC_DIRS = ["src/Common", "src/LinAlg", "src/LinAlg/TMatrices", "src/Algorithm",
            "src/Algorithm/LinearSolvers", "src/contrib/CGPenalty",
            "src/Interfaces", "src/Apps/AmplSolver", "contrib/sIPOPT/src"]


class AnalysisError(Exception):
    """the analysis could not be carried out (error exit, neither pass nor violation)"""


def _first(globs):
    import glob
    for g in globs:
        r = sorted(glob.glob(g))
        if r:
            return r[-1]
    return None


def source_files():
    out = []
    for d in SRC_DIRS:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith((".cpp", ".c", ".cc")) and f not in NOT_BUILT:
                out.append(d + "/" + f)
    return out


def tree_files():
    """all files whose content decides the analysis result"""
    out = []
    for top in ("src", "contrib"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cpp", ".c", ".cc", ".hpp", ".h", ".java", ".inc", ".R", ".in")):
                    out.append(os.path.join(dp, f))
    return out


def config_dir():
    c = os.path.join(REPO, "_build/src/Common")
    if os.path.exists(os.path.join(c, "config.h")) and os.path.exists(os.path.join(c, "config_ipopt.h")):
        return c
    return os.path.join(VERIF, "tool/config")


def flags(f):
    """compile flags of the configured build for source f (see _build Makefiles)"""
    a = []
    inc = lambda p: a.append("-I" + p)
    if f.startswith("contrib/RInterface"):
        # installed-header layout: all headers are found through the source include dirs
        pass
    a += ["-DHAVE_CONFIG_H", "-DNDEBUG", "-I" + config_dir()]
    for d in INC_DIRS:
        inc(os.path.join(REPO, d))
    inc("/usr/include/mumps_seq")
    inc("/usr/include/ampl-netlib-solvers")
    j = _first(["/usr/lib/jvm/java-17*/include"])
    if j:
        inc(j)
        inc(j + "/linux")
    a.append("-I/usr/share/R/include")
    if f.startswith("src/Apps/AmplSolver"):
        a.append("-DIPOPTAMPLINTERFACELIB_BUILD")
    elif f.startswith("contrib/sIPOPT/AmplSolver"):
        a.append("-DSIPOPTAMPLINTERFACELIB_BUILD")
    elif f.startswith("contrib/sIPOPT/src"):
        a.append("-DSIPOPTLIB_BUILD")
    else:
        a.append("-DIPOPTLIB_BUILD")
    rd = _first(["/usr/lib/llvm-18/lib/clang/18", "/usr/lib/llvm-18/lib/clang/*"])
    a += ["-resource-dir", rd, "-w", "-ferror-limit=20"]
    if f.endswith(".c"):
        return ["clang", "-x", "c", "-std=gnu11"] + a
    return ["clang++", "-x", "c++", "-std=gnu++17"] + a


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"?")
    return h.hexdigest()[:24]


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool/extract.cpp")
    key = _hash([src])
    exe = os.path.join(BUILD, "extract-" + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    ll = "/usr/lib/llvm-18"
    cpp = _first([ll + "/lib/libclang-cpp.so*", "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*"])
    llvm = _first([ll + "/lib/libLLVM-18.so", ll + "/lib/libLLVM.so*"])
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + ll + "/include", "-D_GNU_SOURCE", src,
           "-o", tmp, cpp, llvm, "-Wl,-rpath," + ll + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError("extractor does not build:\n" + r.stdout[-3000:])
    os.rename(tmp, exe)
    return exe


def extract():
    """returns the path of the dump (JSON lines) for the current tree"""
    exe = build_tool()
    cfg = config_dir()
    key = _hash([exe, os.path.join(VERIF, "sa/db.py"), cfg + "/config.h", cfg + "/config_ipopt.h"] + tree_files())
    out = os.path.join(BUILD, "dump-" + key)
    if os.path.exists(out):
        return out
    files = source_files()
    if len(files) < 125:
        raise AnalysisError("only %d translation units found" % len(files))
    base = os.environ.get("VERIF_INCR")          # development aid: dump of a base tree + re-extraction of changed sources
    keep = []
    if base:
        b = os.environ["VERIF_BASE"]
        diff = [f for f in files if open(os.path.join(REPO, f), "rb").read() != open(os.path.join(b, f), "rb").read()]
        hdr = [f for f in tree_files() if f.endswith((".hpp", ".h", ".inc", ".java")) and
               open(f, "rb").read() != open(f.replace(REPO, b, 1), "rb").read()]
        if not hdr:
            for line in open(base, encoding="utf-8"):
                if json.loads(line)["file"] not in diff:
                    keep.append(line)
            files = diff
    work = tempfile.mkdtemp(prefix="ex", dir=BUILD)
    try:
        jd = os.path.join(work, "jni")
        r = subprocess.run(["javac", "-h", jd, "-d", jd, os.path.join(REPO, "src/Interfaces/Ipopt.java")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisError("Ipopt.java does not compile:\n" + r.stdout[-2000:])
        db = [{"directory": REPO, "file": os.path.join(REPO, f),
               "arguments": flags(f) + ["-I" + jd, "-c", os.path.join(REPO, f)]} for f in files]
        with open(os.path.join(work, "compile_commands.json"), "w") as fh:
            json.dump(db, fh)
        n = min(8, os.cpu_count() or 4)
        size = lambda f: os.path.getsize(os.path.join(REPO, f)) + 60000
        groups = [[] for _ in range(n)]
        load = [0] * n
        for f in sorted(files, key=size, reverse=True):
            i = load.index(min(load))
            groups[i].append(f)
            load[i] += size(f)
        groups = [g for g in groups if g]
        procs = []
        for i, g in enumerate(groups):
            log = open(os.path.join(work, "log%d" % i), "w")
            procs.append((subprocess.Popen([exe, REPO, work, os.path.join(work, "o%d" % i)] +
                                           [os.path.join(REPO, f) for f in g],
                                           stdout=log, stderr=log), i))
        bad = []
        for p, i in procs:
            if p.wait() != 0:
                bad.append(open(os.path.join(work, "log%d" % i)).read()[-2500:])
        if bad:
            raise AnalysisError("sources do not parse:\n" + "\n".join(bad))
        tmp = os.path.join(work, "all")
        with open(tmp, "wb") as o:
            o.write("".join(keep).encode("utf-8"))
            for _, i in procs:
                with open(os.path.join(work, "o%d" % i), "rb") as fh:
                    shutil.copyfileobj(fh, o)
        # drop older dumps
        for f in os.listdir(BUILD):
            if f.startswith("dump-") and not base:
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        os.rename(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    print(extract(), time.time() - t)
