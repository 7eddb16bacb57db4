"""Threaded loops: no two iterations write one place, none reads what another writes (asynchronous sweeps excepted)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from races import *
from ilu import Ilu
from threads import active

RULE = "race-free"
ASYNC = {"gs": ("apply", "apply_relax"), "sgs": ("apply", "apply_relax"), "cscbgs": ("apply",),
         "ilu0": ("compute", "apply"), "sapilu0": ("compute", "apply"), "sfilu0": ("compute", "apply"), "seqilu0": ("compute", "apply"),
         "async_level_ilu0": ("compute", "apply"), "level_sgs": ("apply", "apply_relax")}
# asynchronous sweeps that the factory does not reach: (class or function, method) -> what the sweeps update in place
ALONE = {("ReorderedAsyncILU0_SRPreconditioner", "apply"): ("this.ytemp", "p1"), ("ReorderedAsyncBlockILU0_SRPreconditioner", "apply"): ("this.ytemp", "p1"),
         ("scalar_ilu0_factorize_noscale", "scalar_ilu0_factorize_noscale"): ("p6",)}
INSERT = ("updateBlock", "updateDiagBlock")


def check(c, p):
    jobs = []
    for prec in ("jacobi", "gs", "sgs", "cscbgs", "level_sgs", "none"):
        for bs, stor in ((1, 0), (4, 0), (5, 0), (4, 1)):
            for a in (0, 1): jobs.append((entry, prec, bs, stor, dict(apply_inittype=a)))
    for prec in ("ilu0", "sapilu0", "sfilu0", "async_level_ilu0"):
        for bs, stor in ((1, 0), (4, 0), (5, 0), (4, 1)):
            for sc in (False, True):
                for fi in (0, 1, 2): jobs.append((entry, prec, bs, stor, dict(apply_inittype=fi % 2, fact_inittype=fi, scale=sc, compute_precinfo=True)))
    c.par(p, jobs)
    covered = {o[3] for o in c.obs}
    rest = []
    for f in p.funcs.values():
        if "body" not in f: continue
        ls = ["%s:%s" % (f["file"].replace("/repo/", ""), n) for n in constructs(f["body"])]
        if any(x not in covered for x in ls): rest.append((alone, f["key"]))
    c.par(p, rest)
    ins = [(insertion, f["key"]) for f in p.funcs.values() if "body" in f and f["n"] in INSERT and "BSRMatrix<" in f["q"]]
    c.par(p, ins)
    c.need(RULE, 100)
    c.need("concurrent-insertion", 2)


def constructs(n):
    if isinstance(n, dict):
        if n.get("k") == "omp" and ({"for", "simd"} & set(n["d"].split())): yield n["line"]
        for v in n.values(): yield from constructs(v)
    elif isinstance(n, list):
        for v in n: yield from constructs(v)


def entry(c, p, prec, bs, stor, kw):
    i = Inst(p, prec, bs, stor, **kw)
    if i.obj is None: return
    c.used(i.I)
    lu = None
    allow = ASYNC.get(prec, ())
    if "ilu" in prec:
        u = Ilu(p, prec, bs, stor, **kw)
        i, lu = u.i, u.LU
        runs = [("compute", u.runs[0])]
    else: runs = [("compute", i.call("compute"))]
    runs.append(("apply", i.call("apply", R, Z)))
    if prec in ("jacobi", "gs", "sgs", "level_sgs"):
        setparams(i)
        runs.append(("apply_relax", i.call("apply_relax", R, Z)))
    for what, effs in runs:
        def ok(base, what=what):
            if what not in allow: return False
            if what == "compute": return base is lu
            return base is Z or base.op == "heap"
        report(c, i.I, effs, "%s, %s" % (i.name, what), ok)


def report(c, I, effs, name, ok, perms=()):
    for r in collect(I, effs):
        if r.P is not None and active(r.P) is False:
            c.ok("sequential", "%s: %s" % (name, r.o.d), r.where); continue
        probs, n = analyse(I, r, ok, perms)
        if not probs: c.ok(RULE, "%s: %s" % (name, r.o.d), r.where)
        for kind, where, msg in probs[:6]:
            (c.bad if kind == "bad" else c.und)(RULE, "%s: %s" % (name, r.o.d), where, msg)
    outside(c, I, effs, name)


def outside(c, I, effs, name):
    """code every thread of a parallel region executes: no shared stores"""
    for e in effs:
        if e.kind not in ("store", "set"): continue
        ps = [o for o in e.omps() if "parallel" in words(o) and "for" not in words(o)]
        if not ps or any("for" in words(o) or "atomic" in words(o) or "critical" in words(o) or "single" in words(o) or "master" in words(o) for o in e.omps()): continue
        P = ps[-1]
        if active(P) is False: continue
        h = holder(e.base)
        if h.op == "obj":
            n = str(h.a[0])
            d = I.declw.get(h)
            m = re.search(r"#(\d+)", n)
            if d is not None and any(x is P for x in d): continue
            if d is None and m and int(m.group(1)) > P.uid: continue
            if any(h in clause_vars(o, ("private", "firstprivate", "lastprivate", "linear", "reduction")) for o in e.omps()): continue
        if h.op in ("heap", "heapobj") and any(x.kind == "alloc" and x.base is h and P in x.ctx for x in effs): continue
        if e.off is not None and any(opaque(x) or (x.op == "call" and "omp_get_thread_num" in str(x.a[0])) for x in walk(e.off)):
            c.und(RULE, "%s: parallel" % name, e.where(), "place %s[%s] depends on the thread number" % (show(e.base), show(e.off))); continue
        if any(isinstance(f, If) and "omp_get_thread_num" in show(f.c) for f in e.ctx): continue
        c.bad(RULE, "%s: parallel" % name, e.where(), "every thread of the region at line %s writes the shared %s" % (P.line, show(e.base)))


PERMFIELDS = ("rp", "cp", "irp", "icp")


def alone(c, p, key):
    f = next(x for x in p.funcs.values() if x["key"] == key)
    I, st = Interp(p, budget=400000), State()
    I.run(f, this=mk("obj", "this"), cls=f.get("cls"), st=st)
    c.used(I)
    perms = {e.base for e in I.eff if e.kind == "read" and (fname(e.base)[1] in PERMFIELDS)}
    def ok(b):
        for (who, meth), places in ALONE.items():
            if who in f["q"] and f["n"] == meth: return show(b) in places
        return False
    report(c, I, I.eff, f["fn"].replace("blasted::", "")[:80], ok, perms)


def insertion(c, p, key):
    """adding a block to an assembled matrix: every addition to shared values is atomic"""
    f = next(x for x in p.funcs.values() if x["key"] == key)
    I, st = Interp(p, budget=400000), State()
    I.run(f, this=mk("obj", "this"), cls=f.get("cls"), st=st)
    c.used(I)
    name = f["fn"].replace("blasted::", "")
    n = 0
    for e in I.eff:
        if e.kind == "store":
            h = holder(e.base)
            if h.op == "obj" and "#" in str(h.a[0]): continue
            n += 1
            at = any(isinstance(o, Omp) and ("atomic" in words(o) or "critical" in words(o)) for o in e.ctx)
            own = load(e.base, e.off)
            if not at: c.bad("concurrent-insertion", name, e.where(), "adds to %s without an atomic update" % show(e.base))
            else: c.ok("concurrent-insertion", name, e.where())
        elif e.kind == "set":
            h = holder(e.base)
            if h.op == "obj" and "#" not in str(h.a[0]): c.bad("concurrent-insertion", name, e.where(), "changes the shared %s" % show(e.base))
    if not n: c.und("concurrent-insertion", name, p.loc(f), "no store found")


if __name__ == "__main__":
    main(check, "P09", "Data-race analysis of every work-shared loop: each write is shown to belong to one iteration (linear distance, row segment, permutation), each read of a written array to the same iteration; scalars written must be private, reduction or atomic. Exceptions: the sweep targets of the asynchronous and level-scheduled methods.",
         ["row pointers are non-decreasing and diagonal positions lie in their row", "distinct array arguments do not alias", "level-scheduled rows of one level do not depend on each other (P20)"])
