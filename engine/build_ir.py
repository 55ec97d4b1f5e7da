"""Compiles every C translation unit of /repo/reference/src to LLVM IR, links one module per program and dumps it."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "reference/src")

PROGRAMS = {
    "ta": ["taimpl", "util"],
    "ci": ["clientimpl", "util"],
    "cl": ["client", "util"],
}


class BuildError(Exception):
    pass


def incs(comp):
    i = []
    def a(*ps):
        for p in ps:
            i.append("-I" + os.path.join(SRC, p))
    if comp == "taimpl":
        a("taimpl/include", "client/include", "util/include", "taimpl/include/internal")
    elif comp == "clientimpl":
        a("client/include", "client/src", "util/include", "clientimpl/include", "clientimpl/src/internal",
          "clientimpl/src/porting", "taimpl/include")
    elif comp == "client":
        a("client/include", "util/include", "client/src")
    elif comp == "util":
        a("util/include", "client/include")
    i.append("-isystem")
    i.append(os.path.join(REPO, "reference/include"))
    return i


def tool():
    """Path of the IR dumper, building it when missing."""
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "irdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        flags = [f for f in flags if not f.startswith("-std=")]
        libs = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "--link-shared", "--system-libs"], text=True).split()
        r = subprocess.run(["clang++", "-O1", "-w", "-std=c++17"] + flags + [src, "-o", tmp] + libs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("irdump does not build:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out


def sources(comp):
    return sorted(glob.glob(os.path.join(SRC, comp, "src/**/*.c"), recursive=True))


def tree_hash():
    h = hashlib.sha256()
    files = []
    for comp in ("taimpl", "clientimpl", "client", "util"):
        for sub in ("src", "include"):
            for p in glob.glob(os.path.join(SRC, comp, sub, "**/*.[ch]"), recursive=True):
                files.append(p)
    for p in sorted(files):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def build(prog, jobs=8):
    """Returns the parsed dump of a program."""
    t = tool()
    work = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        units = [(c, s) for c in PROGRAMS[prog] for s in sources(c)]
        if not units:
            raise BuildError("no sources found under " + SRC)

        def one(cs):
            comp, s = cs
            o = os.path.join(work, comp + "_" + os.path.relpath(s, SRC).replace("/", "_") + ".bc")
            cmd = ["clang", "-std=gnu11", "-w", "-D_GNU_SOURCE", "-DENABLE_SOC_KEY_TESTS", "-fPIC", "-g", "-O0",
                   "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-emit-llvm", "-c", s, "-o", o] + incs(comp)
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("%s does not compile:\n%s" % (s, r.stderr[-2000:]))
            return o
        with ThreadPoolExecutor(jobs) as ex:
            objs = list(ex.map(one, units))
        linked = os.path.join(work, "all.bc")
        r = subprocess.run(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link", "-o", linked] + objs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("llvm-link: " + r.stderr[-2000:])
        opt = os.path.join(work, "opt.bc")
        r = subprocess.run(["opt-18" if shutil.which("opt-18") else "opt", "-passes=function(mem2reg)", linked, "-o", opt], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("opt: " + r.stderr[-2000:])
        r = subprocess.run([t, opt], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("irdump: " + r.stderr[-2000:])
        d = json.loads(r.stdout)
        d["units"] = [os.path.relpath(s, REPO) for _, s in units]
        return d
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    import time
    for p in sys.argv[1:] or PROGRAMS:
        t0 = time.time()
        d = build(p)
        fs = d["functions"]
        print(p, len(d["units"]), "units", sum(1 for f in fs.values() if not f["decl"]), "functions", sum(len(b) for f in fs.values() if not f["decl"] for b in f["blocks"]), "instrs", "%.1fs" % (time.time() - t0))
