"""Phases of a threaded computation are separated by barriers; dependency levels are processed in order; sequential methods stay sequential."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from races import *
from ilu import Ilu
from threads import active, threaded, sweeps

CFG = ((1, 0), (4, 0), (5, 0), (4, 1))
# what the asynchronous sweeps update in place (by design without barriers between sweeps)
INPLACE = {"gs": ("apply", "apply_relax"), "sgs": ("apply", "apply_relax"), "ilu0": ("compute", "apply"), "sapilu0": ("compute", "apply"),
           "sfilu0": ("compute", "apply"), "async_level_ilu0": ("compute",)}
LEVEL = {"level_sgs": ("apply", "apply_relax"), "async_level_ilu0": ("apply",)}
SEQ = {"seqilu0": ("compute", "apply"), "sfilu0": ("compute",), "sapilu0": ("apply",)}


def check(c, p):
    jobs = []
    for prec in ("jacobi", "gs", "sgs", "cscbgs", "level_sgs"):
        for bs, stor in CFG:
            for a in (0, 1): jobs.append((entry, prec, bs, stor, dict(apply_inittype=a)))
    for prec in ("ilu0", "seqilu0", "sapilu0", "sfilu0", "async_level_ilu0"):
        for bs, stor in CFG:
            for sc in (False, True):
                for fi in (0, 1, 2): jobs.append((entry, prec, bs, stor, dict(apply_inittype=fi % 2, fact_inittype=fi, scale=sc, compute_precinfo=True)))
    c.par(p, jobs)
    covered = {o[3] for o in c.obs if o[0] == "phases"}
    rest = []
    for f in p.funcs.values():
        if "body" not in f: continue
        ls = ["%s:%s" % (f["file"].replace("/repo/", ""), n) for n in parallels(f["body"])]
        if any(x not in covered for x in ls): rest.append((alone, f["key"]))
    c.par(p, rest)
    c.need("phases", 20); c.need("levels", 8); c.need("sequential", 8)


def parallels(n):
    if isinstance(n, dict):
        if n.get("k") == "omp" and "parallel" in n["d"].split() and "for" not in n["d"].split(): yield n["line"]
        for v in n.values(): yield from parallels(v)
    elif isinstance(n, list):
        for v in n: yield from parallels(v)


def entry(c, p, prec, bs, stor, kw):
    i = Inst(p, prec, bs, stor, **kw)
    if i.obj is None: return
    lu = None
    if "ilu" in prec:
        u = Ilu(p, prec, bs, stor, **kw)
        i, lu = u.i, u.LU
        runs = [("compute", u.runs[0])]
    else: runs = [("compute", i.call("compute"))]
    c.used(i.I)
    runs.append(("apply", i.call("apply", R, Z)))
    if prec in ("jacobi", "gs", "sgs", "level_sgs"):
        setparams(i)
        runs.append(("apply_relax", i.call("apply_relax", R, Z)))
    for what, effs in runs:
        name = "%s, %s" % (i.name, what)

        def ok(base, what=what):
            if what not in INPLACE.get(prec, ()): return False
            if what == "compute": return base is lu
            return base is Z or base.op == "heap" or what == "apply" and base.op == "deref"
        pairs(c, i.I, effs, name, ok)
        if what in LEVEL.get(prec, ()): levels(c, i, effs, name)
        if what in SEQ.get(prec, ()):
            got, where = threaded(i, effs, what)
            if got is None: c.und("sequential", name, where, "no sweep found")
            else: c.req(got is False, "sequential", name, where, "documented as sequential, but its sweeps run threaded%s" % (" if %s" % show(got) if isinstance(got, T) else ""))


def pairs(c, I, effs, name, ok):
    bad, n = unsynchronised(I, effs, ok)
    for P, its in phases_of(I, effs):
        w = "%s:%s" % (P.fn["file"].replace("/repo/", ""), P.line)
        mine = [x for x in bad if x[0] is P]
        if not mine: c.ok("phases", name, w)
        seen = set()
        for P, a, b, base, cyc in mine:
            k = (a.where, b.where, base)
            if k in seen: continue
            seen.add(k)
            msg = "no barrier between the loop at %s and the %s at %s, and both use %s" % (a.where, ("following code", "next sweep's code")[cyc], b.where, show(base))
            (c.und if opaque(base) else c.bad)("phases", name, a.where, msg)


def levels(c, i, effs, name):
    """the loop over the levels is not itself distributed, and each level ends with a barrier"""
    found = 0
    for e in sweeps(i, effs, "apply"):
        lv = None
        for k, L in enumerate(e.loops()):
            for L2 in e.loops()[k + 1:]:
                ends = [x for x in walk(L2.n) if x.op == "load" and mentions(x.a[1], L.T)]
                if ends and mentions(e.off, L2.T) and fname(ends[0].a[0])[1] not in START + END_ + DIAG: lv = L
            if lv is not None: break
        if lv is None: continue
        found += 1
        pos = e.ctx.index(lv)
        outer = [f for f in e.ctx[:pos] if isinstance(f, Omp)]
        inner = [f for f in e.ctx[pos:] if isinstance(f, Omp)]
        if any("for" in words(o) and active_any(o) for o in outer):
            c.bad("levels", name, e.where(), "the levels themselves are handed out to the threads"); continue
        par = [o for o in outer if "parallel" in words(o) and active(o) is not False]
        ws = [o for o in inner if "for" in words(o)]
        if par:
            o = ws[0] if ws else None
            if o is None: c.bad("levels", name, e.where(), "every thread processes all rows of a level")
            elif any(cl["c"] == "nowait" for cl in o.cl): c.bad("levels", name, e.where(), "the loop over the rows of a level at line %s does not wait for the other threads before the next level" % o.line)
            else: c.ok("levels", name, e.where())
        else: c.ok("levels", name, e.where())
    if not found: c.und("levels", name, "?", "no loop over levels found")


def active_any(o): return "parallel" not in words(o) or active(o) is not False


def alone(c, p, key):
    f = next(x for x in p.funcs.values() if x["key"] == key)
    I, st = Interp(p, budget=400000), State()
    I.run(f, this=mk("obj", "this"), cls=f.get("cls"), st=st)
    c.used(I)

    def ok(b):
        for (who, meth), places in ALONE.items():
            if who in f["q"] and f["n"] == meth: return show(b) in places
        return False
    pairs(c, I, I.eff, f["fn"].replace("blasted::", "")[:80], ok)


ALONE = {("ReorderedAsyncILU0_SRPreconditioner", "apply"): ("this.ytemp", "p1"), ("ReorderedAsyncBlockILU0_SRPreconditioner", "apply"): ("this.ytemp", "p1"),
         ("scalar_ilu0_factorize_noscale", "scalar_ilu0_factorize_noscale"): ("p6",)}

if __name__ == "__main__":
    main(check, "P10", "Every parallel region is cut at its barriers (implied and explicit); two constructs of one barrier-free stretch, also across sweeps, may not touch the same data with a write, except the in-place target of asynchronous sweeps. Level loops: never distributed, barrier after each level. Sequential methods: no active parallel region around the sweeps.",
         ["OpenMP semantics of the implementation (implied barriers)", "distinct array arguments do not alias"])
