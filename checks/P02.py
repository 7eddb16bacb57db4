"""Configured settings reach the operation they configure: which setting each sweep count, chunk clause, scaling,
starting value, diagnostic and thread region of every method depends on."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from ilu import *
from threads import sweeps, active, threaded

CHUNK = mk("sym", mk("fld", SET, "thread_chunk_size"))
ASYNC_APPLY = ("gs", "sgs", "ilu0", "seqilu0", "sfilu0", "sapilu0", "cscbgs")
THREADS = {"ilu0": (True, True), "seqilu0": (False, False), "sfilu0": (False, True), "sapilu0": (True, False), "async_level_ilu0": (True, None)}


def check(c, p):
    jobs = []
    for bs, stor in VARIANTS:
        for prec in ASYNC_APPLY + ("async_level_ilu0",):
            if prec == "cscbgs" and bs > 1: continue
            jobs.append((counts, prec, bs, stor))
        for prec in ILUS:
            jobs.append((scaling, prec, bs, stor))
            jobs.append((precinfo, prec, bs, stor))
            jobs.append((factinit, prec, bs, stor))
            if prec != "async_level_ilu0": jobs.append((applyinit, prec, bs, stor))
        jobs.append((applyinit, "sgs", bs, stor))
    jobs.append((reordered,))
    jobs.append((petsc,))
    c.par(p, jobs)
    c.need("sweep-count", 20); c.need("chunk-size", 20); c.need("scaling", 10); c.need("factor-start", 10); c.need("apply-start", 10); c.need("diagnostics", 10)


def base(**kw):
    d = dict(fact_inittype=1, apply_inittype=1, compute_precinfo=False, scale=False)
    d.update(kw)
    return d


def where(i, meth):
    f = i.p.method(i.cls, meth)
    return i.p.loc(f) if f else "?"


def counts(c, p, prec, bs, stor):
    i = Inst(p, prec, bs, stor, **base(scale=prec in ILUS))
    if i.obj is None: c.und("sweep-count", i.name, "src/solverfactory.cpp", "no object"); return
    c.used(i.I)
    for k, meth in ((0, "compute"), (1, "apply")):
        if k == 0 and prec not in ILUS: i.call("compute"); continue
        effs = i.call(meth, *((R, Z) if k else ()))
        ss = sweeps(i, effs, meth)
        want = NAPPLY if k else NBUILD
        nm = "%s %s" % (i.name, meth)
        if k and prec == "async_level_ilu0": continue      # substitution by levels: no sweep count
        if not ss: c.und("sweep-count", nm, where(i, meth), "no sweep found"); continue
        # repetition loops of every sweep store
        reps = []
        for e in ss:
            s = canon(e)
            if k == 0 and not [n for n, L in s.rep] and not in_parallel_sweep(e): continue
            reps.append((e, [n for n, L in s.rep]))
        bad = [(e, r) for e, r in reps if r != [want]]
        if not reps: c.bad("sweep-count", nm, where(i, meth), "nothing is repeated %s times" % want)
        elif bad: c.bad("sweep-count", nm, bad[0][0].where(), "this sweep is performed %s times, required %s" % (bad[0][1] or "1", want))
        else: c.ok("sweep-count", nm, ss[0].where())
        # chunk sizes
        seen = 0
        for e, r in reps:
            for o in e.omps():
                if "for" not in o.d.split(): continue
                for cl in o.get("schedule"):
                    seen += 1
                    ch = cl.get("chunk")
                    c.req(ch is CHUNK, "chunk-size", "%s, loop at line %d" % (nm, o.line), e.where(), "the sweep's work chunk is %s, required %s" % (ch, CHUNK))
        if reps and not seen: c.bad("chunk-size", nm, reps[0][0].where(), "no sweep uses the configured chunk size")
        # threads
        w = THREADS.get(prec, (None, None))[k]
        if w is not None:
            got, wh = threaded(i, effs, meth)
            if got is None: c.und("threads", nm, wh, "no sweep found")
            else: c.req(got is w, "threads", nm, wh, "runs %s, configured as %s" % (got if isinstance(got, T) else ("sequentially", "threaded")[got], ("sequential", "threaded")[w]))


def in_parallel_sweep(e):
    """a store inside a worksharing loop with an explicit chunk is meant as a sweep even if it is not repeated"""
    return any(o.get("schedule") and "for" in o.d.split() for o in e.omps())


def scaling(c, p, prec, bs, stor):
    for sc in (False, True):
        u = Ilu(p, prec, bs, stor, times=1, **base(scale=sc))
        if u.i.obj is None or u.LU is None: c.und("scaling", u.name, "src/solverfactory.cpp", "no factor"); continue
        c.used(u.i.I)
        init, sw, fin = u.split(u.ss[0])
        if not sw: c.und("scaling", u.name, where(u.i, "compute"), "no sweeps found"); continue
        if not sc:
            c.req(u.SC is None, "scaling", u.name + " factor", where(u.i, "compute"), "scaling vector %s is computed though scaling was not requested" % u.SC)
            continue
        if u.SC is None: c.bad("scaling", u.name + " factor", where(u.i, "compute"), "scaling was requested and no scaling vector is computed"); continue
        used = any(mentions(s.val, u.SC) for s in sw)
        c.req(used, "scaling", u.name + " factor", sw[0].e.where(), "scaling was requested and the factorisation does not use it")
        a = IluApply(u)
        for nm, ss in (("input of apply", a.fw + a.zpre + a.yinit), ("output of apply", a.zpost)):
            c.req(any(mentions(s.val, u.SC) for s in ss), "scaling", "%s %s" % (u.name, nm), where(u.i, "apply"), "scaling was requested and this step does not scale")


def sig(ss):
    return tuple((str(s.base), str(s.off), str(s.val), tuple(str(g) for g in s.guards), str(s.data), str([n for n, L in s.rep])) for s in ss)


def factinit(c, p, prec, bs, stor):
    sigs = {}
    for fi in (0, 1, 2, 3):
        for ai in ((0, 1) if fi == 1 else (1,)):
            u = Ilu(p, prec, bs, stor, times=2, **base(scale=False, fact_inittype=fi, apply_inittype=ai))
            if u.i.obj is None or u.LU is None: c.und("factor-start", u.name, "src/solverfactory.cpp", "no factor"); return
            c.used(u.i.I)
            init, sw, fin = u.split(u.ss[1])
            sigs[fi, ai] = tuple(x[1:] for x in sig(init))
    nm = "%s/bs%d/%s" % (prec, bs, ("col", "row")[stor])
    w = where(u.i, "compute")
    for a, b in ((0, 1), (0, 2), (1, 2), (1, 3), (0, 3), (2, 3)):
        if bs == 1 and False: pass
        c.req(sigs[a, 1] != sigs[b, 1], "factor-start", "%s, choices %d and %d" % (nm, a, b), w, "the factorisation starts the same way whichever of these two initial guesses is chosen: the setting is not used")
    c.req(sigs[1, 0] == sigs[1, 1], "factor-start", nm + ", application guess", w, "the factorisation's start depends on the application's initial guess")


def applyinit(c, p, prec, bs, stor):
    sigs = {}
    for ai in (0, 1, 2):
        for fi in ((0, 1, 2) if ai == 1 and prec != "sgs" else (1,)):
            i = Inst(p, prec, bs, stor, **base(apply_inittype=ai, fact_inittype=fi))
            if i.obj is None: c.und("apply-start", i.name, "src/solverfactory.cpp", "no object"); return
            c.used(i.I)
            i.call("compute")
            es = i.call("apply", R, Z)
            ss = [canon(e) for e in es if e.kind == "store" and e.base.op != "region"]
            sigs[ai, fi] = (i.threw, tuple(re.sub(r"@\d+|:\d+|#\d+", "", str(x)) for x in sig([s for s in ss if not s.rep])))
    nm = "%s/bs%d/%s" % (prec, bs, ("col", "row")[stor])
    w = where(i, "apply")
    for a, b in ((0, 1), (0, 2), (1, 2)):
        c.req(sigs[a, 1] != sigs[b, 1], "apply-start", "%s, choices %d and %d" % (nm, a, b), w, "the application starts the same way whichever of these two initial guesses is chosen: the setting is not used")
    if prec != "sgs":
        c.req(sigs[1, 0] == sigs[1, 1] == sigs[1, 2], "apply-start", nm + ", factorisation guess", w, "the application's start depends on the factorisation's initial guess")


def precinfo(c, p, prec, bs, stor):
    got = {}
    for pi in (False, True):
        i = Inst(p, prec, bs, stor, **base(compute_precinfo=pi))
        if i.obj is None: c.und("diagnostics", i.name, "src/solverfactory.cpp", "no object"); return
        c.used(i.I)
        es = i.call("compute")
        rg = info_region(i)
        got[pi] = None if rg is None else [e for e in es if e.kind == "store" and e.base is rg]
    nm = "%s/bs%d/%s" % (prec, bs, ("col", "row")[stor])
    w = where(i, "compute")
    if None in got.values(): c.und("diagnostics", nm, w, "returned diagnostics not recognised"); return
    c.req(not got[False], "diagnostics", nm + ", not requested", w, "diagnostics are computed though not requested")
    c.req(bool(got[True]), "diagnostics", nm + ", requested", w, "diagnostics were requested and none is computed")


def reordered(c, p):
    """the public constructor of the reordered factorisation"""
    q = "blasted::ReorderedAsyncILU0_SRPreconditioner<double, int>"
    fs = [f for f in p.funcs.values() if f.get("cls") == q and f.get("kind", "") in ("ctor", "") and f["n"].startswith("ReorderedAsyncILU0") and "body" in f]
    fs = [f for f in fs if len(f["params"]) >= 7]
    if not fs: return
    f = fs[0]
    for tf, ta in ((True, True), (True, False), (False, True), (False, False)):
        I = Interp(p, budget=400000); st = State()
        obj = mk("obj", "reord_prec")
        I.dyn[obj] = q
        nb, na, tc = [mk("sym", mk("obj", x)) for x in ("NB", "NA", "TC")]
        vals = [None, ("v", mk("ptr", mk("obj", "reord"), ZERO)), ("v", nb), ("v", na), ("v", tc), ("v", num(1)), ("v", num(1)), ("v", TRUE if tf else FALSE), ("v", TRUE if ta else FALSE)]
        args = {k: v for k, v in enumerate(vals) if v is not None}
        args[0] = ("lv", MAT)
        I.run(f, args=args, this=obj, cls=q, st=st)
        st.live, st.dead = [], None
        nm = "reordered ILU(0), threadedfactor=%s, threadedapply=%s" % (tf, ta)
        for k, meth, base_, w in ((0, "compute", (), tf), (1, "apply", (R, Z), ta)):
            g = p.method(q, meth)
            n = len(I.eff)
            I.run(g, args={j: ("v", mk("ptr", b, ZERO)) for j, b in enumerate(base_)}, this=obj, cls=q, st=st)
            st.live, st.dead = [], None
            effs = I.eff[n:]
            omps, sw = set(), []
            for e in effs:
                if e.kind != "store": continue
                for o in e.omps():
                    if "for" in o.d.split() and o.get("schedule"): sw.append((e, o))
            if not sw: c.und("sweep-count", nm + " " + meth, p.loc(g), "no sweep found"); continue
            e, o = sw[0]
            s = canon(e)
            c.req(all([n for n, L in canon(e).rep] == [(nb, na)[k]] for e, o in sw), "sweep-count", nm + " " + meth, e.where(), "performed %s times, required the number of %s sweeps" % ([show(n) for n, L in s.rep], ("build", "application")[k]))
            c.req(all(cl.get("chunk") is tc for e, o in sw for cl in o.get("schedule")), "chunk-size", nm + " " + meth, e.where(), "the work chunk is not the configured one")
            acts = {active(x) for e, o in sw for x in e.omps() if "parallel" in x.d}
            c.req(acts == {w}, "threads", nm + " " + meth, e.where(), "threading is %s, configured %s" % ([show(a) if isinstance(a, T) else a for a in acts], w))


def petsc(c, p):
    """the PETSc interface hands each field of its context to the setting of the same meaning"""
    fs = [f for f in p.funcs.values() if f["n"] == "createNewPreconditioner" and "body" in f]
    if not fs: return
    f = fs[0]
    I = Interp(p, budget=400000); st = State()
    I.run(f, args={0: ("v", mk("sym", "pc"))}, st=st)
    c.used(I)
    rec = None
    for e in I.eff:
        if e.kind == "call" and str(e.name).endswith("create_preconditioner") and len(e.args) >= 3:
            for a in e.args[1:]:
                if a.op in ("ptr", "lv") and any(k.op == "fld" and k.a[0] is a.a[0] and k.a[1] == "prectype" for k in st.cells): rec = a.a[0]
                if a.op == "rec" and mk("fld", a.a[0], "prectype") in st.cells: rec = a.a[0]
    w = p.loc(f)
    if rec is None: c.und("interface-settings", "createNewPreconditioner", w, "settings object not recognised"); return
    ctxf = {"bs": "bs", "scale": "scale", "thread_chunk_size": "threadchunksize", "compute_precinfo": "compute_precinfo"}
    for s, x in ctxf.items():
        v = st.cells.get(mk("fld", rec, s))
        nm = "PETSc interface: %s" % s
        if v is None: c.bad("interface-settings", nm, w, "this setting is never given a value"); continue
        good = v.op == "sym" and v.a[0].op == "fld" and v.a[0].a[1] == x or (show(v).endswith("." + x))
        c.req(good, "interface-settings", nm, w, "the setting receives %s, required the context's %s" % (show(v)[:200], x))
    v = st.cells.get(mk("fld", rec, "blockstorage"))
    c.req(v is not None and numval(v) == 0, "interface-settings", "PETSc interface: blockstorage", w, "PETSc blocks are column-major; the setting is %s" % v)
    for s, x in (("nbuildsweeps", "nbuildsweeps"), ("napplysweeps", "napplysweeps")):
        sets = [e for e in I.eff if e.kind == "set" and e.base is mk("fld", rec, s)]
        nm = "PETSc interface: %s" % s
        g0 = [e for e in sets if show(e.val).endswith("." + x)]
        oth = [e for e in sets if e not in g0 and numval(e.val) != 1]
        c.req(bool(g0) and not oth and not g0[0].guards(), "interface-settings", nm, w, "the setting receives %s, required the context's %s (1 when sequential)" % ([show(e.val) for e in sets], x))


if __name__ == "__main__":
    main(check, "P02", "settings given symbolically to the factory (and to the reordered class and the PETSc interface) are followed to the operation each configures: repetition counts of sweeps, schedule chunks, scaling of factor, input and output, starting values, diagnostics and parallel regions")
