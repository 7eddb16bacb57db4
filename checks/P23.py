"""Build configurations: every unit compiles and every symbol of the library that some unit needs is provided by a unit,
for an additional block size and for the documented variants of the build; the factory treats the additional size as a
built-in one."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import frontend
from frontend import LLVM, REPO, BUILD, AnalysisBroken
from lib import *
from model import *

SIZES = (6, 3)
MORE = (2, 7, 8, 9, 10)
BUILTIN = (1, 4, 5)
VARIANTS = [("the default build", []), ("a debug build", ["-DDEBUG=1"]), ("a release build", ["-DNDEBUG"]),
            ("a build without OpenMP", ["-fno-openmp"]), ("a build with the matching library", ["-DHAVE_MC64"])]
METHODS = [m for m in PT if m != "cscbgs"]
CONTAINERS = re.compile(r"\bblasted::(BSRMatrix<|BSRMatrixView<|getSRMatrixFromCOO<|constructBSRMatrixFromMatrixMarketFile<)")


def units():
    """the units some library of the build is made of"""
    named = set()
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f == "CMakeLists.txt": named |= {os.path.join(d, x) for x in re.findall(r"[\w./-]+\.(?:cpp|cc|cxx|c)\b", open(os.path.join(d, f)).read())}
    us = [u for u in frontend.units() if u in named]
    if len(us) < 10: raise AnalysisBroken("only %d units are named by the build" % len(us))
    return us


def lower(u, extra):
    """(errors, {symbol: linkage} defined, {symbol: (unit:line, user)} needed) of one unit, from its LLVM IR"""
    cc = LLVM + "/bin/" + ("clang" if u.endswith(".c") else "clang++")
    r = subprocess.run([cc] + frontend.flags(extra, u.endswith(".c")) + ["-S", "-emit-llvm", "-O0", "-gline-tables-only", "-o", "-", u],
                       capture_output=True, text=True, cwd=BUILD)
    rel = os.path.relpath(u, REPO)
    if r.returncode:
        return rel, [l for l in r.stderr.splitlines() if "error:" in l] or [r.stderr[-300:]], {}, {}
    defs, decl, uses = {}, set(), {}
    fn, dilines = None, {}
    for l in r.stdout.splitlines():
        if l.startswith("define "):
            m = re.match(r"define\s+((?:[\w]+\s+)*?)?.*?@(\"[^\"]+\"|[\w.$]+)\(", l)
            name = m.group(2).strip('"')
            lk = [w for w in l.split("@")[0].split() if w in ("internal", "private", "linkonce_odr", "linkonce", "weak_odr", "weak", "available_externally")]
            defs[name] = lk[0] if lk else "strong"
            fn = name
        elif l.startswith("declare "):
            m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", l)
            if m: decl.add(m.group(1).strip('"'))
        elif l.startswith("@"):
            m = re.match(r"@(\"[^\"]+\"|[\w.$]+) = (.*)", l)
            name, rest = m.group(1).strip('"'), m.group(2)
            ws = rest.split(" global ")[0].split(" constant ")[0].split()
            if "external" in ws or "extern_weak" in ws: decl.add(name)
            elif "alias" in rest.split()[:6]: defs[name] = "weak_odr" if "weak_odr" in rest else "linkonce_odr" if "linkonce_odr" in rest else "strong"
            else:
                lk = [w for w in ws if w in ("internal", "private", "linkonce_odr", "linkonce", "weak_odr", "weak", "available_externally", "common", "appending")]
                defs[name] = lk[0] if lk else "strong"
            for x in re.findall(r"@(\"[^\"]+\"|[\w.$]+)", rest): uses.setdefault(x.strip('"'), (name, None))
        elif l.startswith("}"): fn = None
        elif l.startswith("!"):
            m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", l)
            if m: dilines[m.group(1)] = m.group(2)
        elif fn is not None and "@" in l:
            d = re.search(r"!dbg !(\d+)", l)
            for x in re.findall(r"@(\"[^\"]+\"|[\w.$]+)", l): uses.setdefault(x.strip('"'), (fn, d.group(1) if d else None))
    need = {}
    for x in decl:
        if x in uses and not x.startswith("llvm."):
            who, d = uses[x]
            need[x] = ("%s%s" % (rel, ":" + dilines[d] if d in dilines else ""), who)
    return rel, [], defs, need


def demangle(names):
    names = sorted(names)
    out = subprocess.run([LLVM + "/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
    if out.returncode: raise AnalysisBroken("llvm-cxxfilt failed")
    return dict(zip(names, out.stdout.splitlines()))


class Linked:
    """all units of one configuration, and how their symbols resolve"""

    def __init__(self, extra):
        with ThreadPoolExecutor(max_workers=8) as ex: self.us = list(ex.map(lambda u: lower(u, extra), units()))
        self.errors = {rel: e for rel, e, d, n in self.us if e}
        self.given, self.strong = {}, {}
        for rel, e, d, n in self.us:
            for x, lk in d.items():
                if lk in ("strong", "weak", "weak_odr"): self.given.setdefault(x, rel)
                if lk == "strong": self.strong.setdefault(x, []).append(rel)
        self.need = {}
        for rel, e, d, n in self.us:
            for x, w in n.items():
                if x not in self.given: self.need.setdefault(x, w)
        self.dm = demangle(set(self.given) | set(self.need) | {w[1] for w in self.need.values()})

    def own(self, x, cnames):
        """is this a symbol the library itself has to provide"""
        d = self.dm.get(x, x)
        return "blasted" in re.sub(r"\(.*", "", d) and not re.match(r"(std|boost|Eigen|__gnu_cxx)::|(vtable|typeinfo|typeinfo name) for (std|boost|Eigen)", d) or x in cnames


def check(c, p):
    cn = {f["n"] for f in p.funcs.values() if f.get("externc") and "body" in f}
    tier = "thorough" if "thorough" in sys.argv[1:] or os.environ.get("VERIF_TIER") == "thorough" and "quick" not in sys.argv[1:] else "quick"
    for nm, extra in VARIANTS: linked(c, nm, extra, cn)
    for n in SIZES + (MORE if tier == "thorough" else ()):
        L = linked(c, "block size %d" % n, ["-DBUILD_BLOCK_SIZE=%d" % n], cn)
        if L: counterpart(c, L, n)
    dispatch(c, p, SIZES[0])
    conditions(c)
    c.need("compiles", 20); c.need("resolved", 20)


def linked(c, nm, extra, cn):
    L = Linked(extra)
    for rel, e, d, n in L.us:
        if e: c.bad("compiles", "%s: %s" % (nm, rel), re.sub(r"^%s/" % re.escape(REPO), "", e[0].split(": ")[0]), "this unit does not compile in %s: %s" % (nm, e[0][:400]))
        else: c.ok("compiles", "%s: %s" % (nm, rel), rel)
    if L.errors: return None
    c.funcs |= {L.dm[x] for x in L.given}
    miss = {}
    for x, (w, who) in sorted(L.need.items()):
        omp = "no-openmp" in str(extra) and re.match(r"omp_|__kmpc", x)
        if omp or L.own(x, cn): miss.setdefault(w.split(":")[0], []).append((x, w, who))
    for rel, e, d, n in L.us:
        if rel not in miss: c.ok("resolved", "%s: %s" % (nm, rel), rel)
        for x, w, who in miss.get(rel, ()):
            c.bad("resolved", "%s: %s" % (nm, L.dm[x][:160]), w, "%s, used by %s, is provided by no unit in %s" % (L.dm[x], L.dm.get(who, who)[:200], nm))
    for x, us in sorted(L.strong.items()):
        if len(us) > 1 and x != "main": c.bad("resolved", "%s: %s" % (nm, L.dm[x][:160]), us[1], "%s is defined in %s" % (L.dm[x], " and ".join(us)))
    return L


def counterpart(c, L, n):
    """the containers and conversions provided for a built-in size exist for the additional one"""
    have = {}
    for x in L.given: have.setdefault(L.dm[x], x)
    for d in sorted(have):
        if not CONTAINERS.search(d): continue
        m = re.search(r"<(double|double const), (int|int const), (\d+)", d)
        if not m or m.group(3) not in ("4", "7") or int(m.group(3)) == n: continue
        k = m.group(3)
        if re.search(r"\b(guard variable|typeinfo|vtable|VTT)\b", d): continue
        w = re.sub(r"(<(?:double|double const), (?:int|int const), )%s\b" % k, r"\g<1>%d" % n, d)
        w2 = re.sub(r"\b%d\b" % (int(k) * int(k)), str(n * n), w)
        c.req(w in have or w2 in have, "containers", "block size %d: %s" % (n, w[:160]), L.given[have[d]],
              "%s is provided for block size %s and not for the additional block size %d" % (d, k, n))


def dispatch(c, p, n):
    q = frontend.Program(extra=["-DBUILD_BLOCK_SIZE=%d" % n], tolerate=True)
    if q.failed: return      # reported above
    for stor in (0, 1):
        for m in METHODS:
            a, b = [Inst(q, m, s, stor) for s in (4, n)]
            nm = "block size %d, %s, %s-major blocks" % (n, m, ("column", "row")[stor])
            f = one(q, "blasted::SRFactory<double, int>::create_preconditioner", 2)
            w = q.loc(f)
            if a.obj is None: continue
            if b.obj is None: c.bad("dispatch", nm, w, "the factory creates no %s for the additional block size" % m); continue
            want = re.sub(r"\b4\b", str(n), a.cls)
            c.req(b.cls == want, "dispatch", nm, w, "the factory creates %s, required %s" % (b.cls, want))

            def fields(i):
                r = {}
                for k, v in i.st.cells.items():
                    t, path = k, []
                    while t.op == "fld": path.append(t.a[1]); t = t.a[0]
                    if t is i.obj: r[".".join(reversed(path))] = re.sub(r"(heapobj|obj|loc|region)\([^()]*\)", r"\1", show(v))
                return r
            fa, fb = fields(a), fields(b)
            bad = [k for k in fa if fb.get(k) != fa[k] and not re.search(r"\b4\b|\b16\b", fa[k])]
            c.req(not bad, "dispatch", nm + ", settings", w, "fields %s differ from those of a built-in size: %s" % (bad, [(fa[k], fb.get(k)) for k in bad][:3]))
    conform(c, q, n)
    # sizes neither built in nor configured are refused
    for stor in (0, 1):
        i = Inst(q, "ilu0", 11, stor)
        c.req(i.obj is None and i.dead == "throw", "dispatch", "a size neither built in nor configured, %s-major" % ("column", "row")[stor], w, "a block size that is not supported is not refused")


def conform(c, q, n):
    """the requirements on what the methods compute, for the additional size: the same rules as for the built-in ones"""
    from importlib import import_module
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    for pid in ("P03", "P04", "P05", "P06", "P08"):
        m = import_module(pid)
        d = Check(pid, "")
        for k in ("VARIANTS", "CFG"):
            if hasattr(m, k): setattr(m, k, [(n, 0), (n, 1), (4, 0), (4, 1)])
        try: m.check(d, q)
        except AnalysisBroken as e: c.und("conforms", "block size %d, rules of %s" % (n, pid), "src/", str(e)); continue
        both = {(r, i) for r, i, s, w, msg in d.obs if s == "violation" and "bs4" in i}
        for r, i, s, w, msg in d.obs:
            if s == "violation" and (r, i.replace("bs%d" % n, "bs4")) in both: continue      # no matter of the additional size
            if "bs%d" % n in i: c.obs.append(("conforms", "block size %d, rules of %s, %s, %s" % (n, pid, r, i), s, w, msg))
        c.funcs |= d.funcs


def conditions(c):
    """the sizes examined stand for all: the chosen size is used as a template argument and compared only with sizes examined here"""
    for d, ds, fs in os.walk(REPO):
        if os.path.relpath(d, REPO).split("/")[0] not in (".", "src", "include"): continue
        if d == REPO: ds[:] = [x for x in ds if x in ("src", "include")]; continue
        for f in sorted(fs):
            if not f.endswith((".cpp", ".hpp", ".h", ".ipp", ".c")): continue
            for k, l in enumerate(open(os.path.join(d, f), errors="replace"), 1):
                if re.match(r"\s*#\s*(if|elif)\b", l) and "BUILD_BLOCK_SIZE" in l:
                    ns = {int(x) for x in re.findall(r"\b\d+\b", l)}
                    odd = ns - set(SIZES) - set(MORE)
                    w = "%s:%d" % (os.path.relpath(os.path.join(d, f), REPO), k)
                    if odd: c.und("sizes", w, w, "the chosen size is compared with %s, which is not examined" % sorted(odd))
                    else: c.ok("sizes", w, w)


if __name__ == "__main__":
    main(check, "P23", "every unit named by the build is lowered to LLVM IR in each documented configuration and for additional block sizes: it must compile, and every symbol of the library needed anywhere must have a definition that a linker may rely on (an ordinary definition or an explicit instantiation); containers and conversions provided for a built-in size must exist for the additional size; the factory must create the same method with the same settings for it",
         ["the sizes examined (6 and 3; in the thorough tier also 2, 7, 8, 9, 10) stand for every size that is not built in: the size is only used as a template argument", "sizes 1, 4 and 5 are built in and are no additional sizes", "the external libraries provide what their headers declare"])
