"""Initial guesses and sweep counts of asynchronous factorisations and applications."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from ilu import *

FI = {0: "zero", 1: "original", 2: "sgs", 3: "none"}
AI = {0: "zero", 1: "jacobi", 2: "none"}


def check(c, p):
    jobs = []
    for bs, stor in VARIANTS:
        for sc in (False, True):
            for fi in FI: jobs.append((factor, "ilu0", bs, stor, sc, fi))
        for ai in AI:
            jobs.append((ilu_apply, "ilu0", bs, stor, ai))
            jobs.append((sgs_apply, bs, stor, ai))
        for prec in ILUS[1:]:
            jobs.append((factor, prec, bs, stor, True, 2))
            jobs.append((factor, prec, bs, stor, False, 0))
        for prec in ILUS[1:4]:
            jobs.append((ilu_apply, prec, bs, stor, 0))
        jobs.append((counts_gs, bs, stor))
    c.par(p, jobs)
    names(c, p)
    c.need("factor-guess", 60)
    c.need("build-sweeps", 40)
    c.need("apply-guess", 30)
    c.need("apply-sweeps", 30)
    c.need("names", 8)


def factor(c, p, prec, bs, stor, sc, fi):
    u = Ilu(p, prec, bs, stor, times=2, scale=sc, fact_inittype=fi)
    w = "src/async_ilu_factor.cpp" if bs == 1 else "src/async_blockilu_factor.cpp"
    if u.i.obj is None or u.LU is None: c.und("factor-guess", u.name, w, "no factor array"); return
    c.used(u.i.I)
    if sc and u.SC is None: c.bad("factor-guess", u.name, w, "no scaling vector"); return
    m = u.m
    for t in (0, 1):
        init, sw, fin = u.split(u.ss[t])
        nm = "%s, %s computation" % (u.name, ("first", "second")[t])
        for s in sw:
            c.req([n for n, L in s.rep] == [NBUILD], "build-sweeps", nm, s.e.where(), "the factor sweep is repeated %s times, required %s" % ([n for n, L in s.rep] or 1, NBUILD))
        if not sw: c.bad("build-sweeps", nm, w, "no factor sweep")
        if sw and len({id(s.rep[0][1]) for s in sw if s.rep}) > 1: c.bad("build-sweeps", nm, w, "parts of a sweep are repeated in separate loops")
        ea = EntryArray(u.LU, m)
        bad = False
        for k, s in enumerate(init):
            if s.rep: bad = True
            e = entries(s, m)
            if e is None:
                (c.und if s.opaque() else c.bad)("factor-guess", nm, s.e.where(), "not an assignment of the entries: %r" % s); bad = True; break
            loops = set(s.e.loops()[:1])
            nest = set()
            for s2 in init[k + 1:]:
                if loops & set(s2.e.loops()):
                    e2 = entries(s2, m)
                    nest |= set(e2.vals) if e2 else set(PARTS)
            ea.feed(e, nest)
        if bad: continue
        want = {"zero": {x: ZERO for x in PARTS}, "original": {x: u.a(col=I_ if x == "D" else None) for x in PARTS}, "none": None}.get(FI[fi], 0)
        if want == 0:
            dg = m.diag(m.col(J_))
            want = {x: u.a(col=I_ if x == "D" else None) for x in PARTS}
            want["L"] = mul(want["L"], inv(u.a(m.col(J_), dg, m.col(J_))))
        if want is None:
            if t == 1: c.req(not ea.c, "factor-guess", nm, init[0].e.where() if init else w, "'none' must keep the values of the previous computation; found %s" % ea.c)
            continue
        for x in PARTS:
            v = ea.c.get(x)
            n = "%s: %s" % (nm, {"L": "below the diagonal", "D": "on the diagonal", "U": "above the diagonal"}[x])
            wh = init[-1].e.where() if init else w
            if v is None: c.bad("factor-guess", n, wh, "the entries get no initial value; required %s" % want[x])
            elif v is want[x]: c.ok("factor-guess", n, wh)
            else: (c.und if opaque(v) else c.bad)("factor-guess", n, wh, diffterm(v, want[x]))


def whole(s, n):
    e = elementwise(s)
    return e[1] if e is not None and e[0] is n and not s.rep else None


def guess(c, nm, w, stores, n, want, what):
    """the last whole-array assignment gives the guess"""
    if want is None:
        c.req(not stores, "apply-guess", "%s: %s" % (nm, what), stores[0].e.where() if stores else w, "'none' must keep the present values; found %s" % stores); return
    if not stores: c.bad("apply-guess", "%s: %s" % (nm, what), w, "no initial value is assigned; required %s" % want); return
    s = stores[-1]
    v = whole(s, n)
    if v is None: (c.und if s.opaque() else c.bad)("apply-guess", "%s: %s" % (nm, what), s.e.where(), "not an assignment of the whole vector: %r" % s)
    else: c.req(v is want, "apply-guess", "%s: %s" % (nm, what), s.e.where(), diffterm(v, want))


def counts(c, nm, w, fw, bw):
    for what, l in (("forward", fw), ("backward", bw)):
        if not l: c.bad("apply-sweeps", "%s: %s" % (nm, what), w, "no sweep found")
        for s in l:
            c.req([n for n, L in s.rep] == [NAPPLY], "apply-sweeps", "%s: %s" % (nm, what), s.e.where(), "repeated %s times, required %s" % ([n for n, L in s.rep] or 1, NAPPLY))
    f, b = {s.rep[0][1].uid for s in fw if s.rep}, {s.rep[0][1].uid for s in bw if s.rep}
    c.req(not (f & b), "apply-sweeps", nm + ": separate", w, "forward and backward sweeps share one loop")


def ilu_apply(c, p, prec, bs, stor, ai):
    u = Ilu(p, prec, bs, stor, apply_inittype=ai, scale=False)
    w = "src/solverops_ilu0.cpp"
    if u.i.obj is None or u.LU is None: c.und("apply-guess", u.name, w, "no factor array"); return
    a = IluApply(u)
    c.used(u.i.I)
    n = scale(u.m.n, bs)
    if AI[ai] == "none":
        c.req(bool(a.throws) and a.threw, "apply-guess", u.name + ": unsupported choice raises", w, "the application accepts an unsupported initial guess silently")
        return
    c.req(not a.throws, "apply-guess", u.name + ": supported choice", a.throws[0].where() if a.throws else w, "a supported initial guess raises an exception")
    counts(c, u.name, w, a.fw, a.bw)
    if a.Y is None: return
    guess(c, u.name, w, a.yinit, n, ZERO, "lower solve")
    guess(c, u.name, w, a.zinit, n, ZERO if AI[ai] == "zero" else load(a.Y, D[0]), "upper solve")


def sgs_apply(c, p, bs, stor, ai):
    i = Inst(p, "sgs", bs, stor, apply_inittype=ai)
    m = Mx(bs)
    w = "src/solverops_sgs.cpp"
    if i.obj is None: c.und("apply-guess", i.name, w, "no object"); return
    tr = Trace(norm=lambda t: norm_end(t, m))
    tr.feed(i.call("compute"))
    ss = tr.feed(i.call("apply", R, Z))
    c.used(i.I)
    ss = [s for s in ss if not local(s.base)]
    n = scale(m.n, bs)
    sweeps = [s for s in ss if not initial(s)]
    fw = [s for s in sweeps if s.base is not Z]
    bw = [s for s in sweeps if s.base is Z]
    counts(c, i.name, w, fw, bw)
    if not fw or not bw: return
    Y = fw[0].base
    ini = [s for s in ss if initial(s)]
    guess(c, i.name, w, [s for s in ini if s.base is Y and ss.index(s) < ss.index(fw[0])], n, None if AI[ai] == "none" else ZERO, "forward")
    guess(c, i.name, w, [s for s in ini if s.base is Z and ss.index(s) < ss.index(bw[0])], n, {"zero": ZERO, "jacobi": load(Y, D[0]), "none": None}[AI[ai]], "backward")


def counts_gs(c, p, bs, stor):
    for prec, meth, want in (("gs", "apply", NAPPLY), ("gs", "apply_relax", MAXITS), ("sgs", "apply_relax", MAXITS), ("jacobi", "apply_relax", MAXITS), ("cscbgs", "apply", NAPPLY)):
        if prec == "cscbgs" and bs > 1: continue
        i = Inst(p, prec, bs, stor, apply_inittype=1)
        if i.obj is None: c.und("apply-sweeps", i.name, "src/solverfactory.cpp", "no object"); continue
        setparams(i, False)
        tr = Trace()
        tr.feed(i.call("compute"))
        allz = [s for s in tr.feed(i.call(meth, R, Z)) if s.base is Z]
        ss = [s for s in allz if not (initial(s) and elementwise(s)[1] is ZERO)]
        c.used(i.I)
        nm = "%s %s" % (i.name, meth)
        if prec == "gs" and ss:
            # as a preconditioner it starts from zero, as a relaxation from the iterate it is given
            guess(c, nm, w0 := i.p.method(i.cls, meth)["file"], [s for s in allz[:allz.index(ss[0])]], scale(Mx(bs).n, bs), ZERO if meth == "apply" else None, "sweep")
        if not ss: c.bad("apply-sweeps", nm, i.p.method(i.cls, meth)["file"], "the result is never updated")
        for s in ss:
            c.req([n for n, L in s.rep] == [want], "apply-sweeps", nm, s.e.where(), "repeated %s times, required %s" % ([n for n, L in s.rep] or 1, want))


def names(c, p):
    """every documented initial-guess name selects its own choice; any other raises"""
    for fn, enum, table in (("blasted::getFactInitFromString", "FactInit", {"init_zero": 0, "init_original": 1, "init_sgs": 2, "init_none": 3}),
                            ("blasted::getApplyInitFromString", "ApplyInit", {"init_zero": 0, "init_jacobi": 1, "init_none": 2})):
        f = one(p, fn, 1)
        for s, v in list(table.items()) + [("$other", None)]:
            I = Interp(p)
            st = State()
            r = I.run(f, args={0: ("v", string(s))}, st=st)
            c.used(I)
            w = p.loc(f)
            if v is None: c.req(st.dead == "throw", "names", "%s(other)" % enum, w, "an unknown name is accepted")
            else: c.req(st.dead is None and r is not None and numval(r) == v, "names", "%s(%s)" % (enum, s), w, "name %s gives %s" % (s, r if st.dead is None else "an exception"))


if __name__ == "__main__":
    main(check, "P03", "For every initial-guess choice and method, the values the factor and the vectors hold when the first sweep starts (composition of all preceding stores, first and second computation), and the trip counts of the sweep loops.",
         ["matrix rows sorted, unpadded, diagonal present", "distinct array arguments do not alias"])
