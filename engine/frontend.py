"""Type-checked program of /repo's current source: builds the exporter if needed, runs it over every
translation unit of src/ in parallel, and indexes functions, records, enums and globals.

Nothing from /repo is executed, and the repository's own build output is not used."""
import hashlib, json, os, subprocess, sys, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
PETSC = "/usr/lib/petscdir/petsc3.19"

# units that are no part of any configuration that builds (see DESIGN.md)
NOT_BUILT = {"solverops_sgs_sai.cpp"}


class AnalysisBroken(Exception):
    """The analysis cannot answer (parse failure, vanished anchor): an error exit, never a verdict."""


def tool():
    src = os.path.join(VERIF, "tool", "sexport.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "sexport-" + h)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cmd = [LLVM + "/bin/clang++", "-O0", "-std=c++17", "-fno-rtti", "-w", "-I" + LLVM + "/include",
                   "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                   src, "-o", out + ".tmp", LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("cannot build the exporter:\n" + r.stderr[-2000:])
            os.rename(out + ".tmp", out)
    return out


def flags(extra=(), c=False):
    return (["-std=c11" if c else "-std=c++14", "-fopenmp", "-msse4.2", "-DEIGEN_DONT_PARALLELIZE", "-UNDEBUG", "-w",
             "-ferror-limit=0",
             "-I" + VERIF + "/stubs/omp", "-I" + VERIF + "/stubs/petsc/include", "-isystem", "/usr/include/eigen3",
             "-isystem", PETSC + "/include", "-isystem", PETSC + "/x86_64-linux-gnu-real/include",
             "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
             "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
             "-I" + REPO + "/include", "-I" + REPO + "/src", "-resource-dir", LLVM + "/lib/clang/18"] + list(extra))


def units():
    res = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".cxx", ".c")) and f not in NOT_BUILT:
                res.append(os.path.join(d, f))
    return res


def src_hash():
    h = hashlib.sha256()
    for top in ("src", "include"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for d in ("stubs",):
        for dd, ds, fs in os.walk(os.path.join(VERIF, d)):
            ds.sort()
            for f in sorted(fs):
                h.update(open(os.path.join(dd, f), "rb").read())
    return h.hexdigest()[:24]


def _run1(t, u, extra):
    r = subprocess.run([t, REPO + "/src," + REPO + "/include," + VERIF + "/witness", u, "--"] + flags(extra, u.endswith(".c")),
                       capture_output=True, text=True, cwd=BUILD)
    try:
        o = json.loads(r.stdout)
    except Exception:
        return u, None, r.stderr
    if r.returncode or o.get("errors"):
        return u, None, r.stderr
    return u, o, r.stderr


class Program:
    def __init__(self, extra=(), us=None, tolerate=False):
        self.funcs = {}      # key -> function
        self.records = {}    # canonical name -> record
        self.enums = {}
        self.globals = {}    # name -> global
        self.tus = []
        self.failed = {}
        t = tool()
        us = us or units()
        cache = os.path.join(BUILD, "ast-%s-%s" % (src_hash(), hashlib.sha256(
            (repr(sorted(extra)) + repr(us) + os.path.basename(t)).encode()).hexdigest()[:12]))
        data = None
        if os.path.exists(cache):
            try:
                data = json.load(open(cache))
            except Exception:
                data = None
        if data is None:
            with ThreadPoolExecutor(max_workers=8) as ex:
                data = [(u, o, err if o is None else "") for u, o, err in ex.map(lambda u: _run1(t, u, extra), us)]
            old = sorted((os.path.getmtime(os.path.join(BUILD, x)), x) for x in os.listdir(BUILD) if x.startswith("ast-"))
            for _, x in old[:-6]:
                try: os.unlink(os.path.join(BUILD, x))
                except OSError: pass
            fd, tmp = tempfile.mkstemp(dir=BUILD)
            with os.fdopen(fd, "w") as f:
                json.dump(data, f)
            os.rename(tmp, cache)
        for u, o, err in data:
            if o is None:
                self.failed[u] = err
                if not tolerate:
                    raise AnalysisBroken("cannot parse %s:\n%s" % (u, "\n".join(
                        l for l in err.splitlines() if "error:" in l)[:2000]))
                continue
            self.tus.append(u)
            off = len(self.tus) * 10000000
            for f in o["funcs"]:
                k = f["key"]
                if f["static"] and not f.get("cls"):
                    k = k  # static functions of distinct units have distinct signatures in this tree
                if k not in self.funcs:
                    f["tu"] = u
                    self.funcs[k] = f
            for r in o["records"]:
                if "(lambda at " not in r["n"]: self.records.setdefault(r["n"], r)
            for e in o["enums"]:
                self.enums.setdefault(e["n"], e)
            for g in o["globals"]:
                if g["n"] not in self.globals or ("init" in g and "init" not in self.globals[g["n"]]):
                    self.globals[g["n"]] = g
        for f in self.funcs.values():
            f["short"] = f["q"].split("::")[-1]

    # --- queries
    def bases(self, rn):
        out, st = [], [rn]
        while st:
            r = st.pop(0)
            if r in out: continue
            out.append(r)
            rec = self.records.get(r)
            if rec: st += rec["bases"]
        return out

    def find(self, q, pred=None, ctor=None):
        return [f for f in self.funcs.values() if f["q"] == q and (pred is None or pred(f))]

    def method(self, rn, name, nparm=None):
        """the definition that a call of `name` on an object of dynamic class rn reaches"""
        for b in self.bases(rn):
            for f in self.funcs.values():
                if f.get("cls") == b and f["n"] == name and (nparm is None or len(f["params"]) == nparm) and "body" in f:
                    return f
        return None

    def loc(self, f, line=None):
        return "%s:%d" % (os.path.relpath(f["file"], REPO), line or f["line"])


if __name__ == "__main__":
    print("%d functions" % len(Program().funcs))
