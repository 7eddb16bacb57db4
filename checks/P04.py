"""Relaxations update each unknown by its row equation: value-flow normal forms of every relaxation and SGS-type
preconditioner, built by the factory, computed and applied, against the row equations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from lib import *
from rowform import splitsums

RULE = "row-equation"
VARIANTS = [(1, 0), (4, 0), (5, 0), (4, 1)]
NAPPLY = mk("sym", mk("fld", SET, "napplysweeps"))


def spec_relax(m, x, row):
    return mul(m.dinv(row), sub(m.seg(R, row), add(m.lower(row, x), m.upper(row, x))))


def rowloop(m, lev, dirn):
    """(data loops, row expression) of a plain or level-scheduled sweep"""
    if lev is None: return [(m.n, dirn)], D[0]
    reg, nlev = lev
    return ([(nlev, dirn), (sub(load(reg, add(D[0], ONE)), load(reg, D[0])), None)], add(load(reg, D[0]), D[1]))


def check(c, p):
    for prec in ("jacobi", "gs", "sgs", "level_sgs", "cscbgs", "none"):
        for bs, stor in VARIANTS:
            if prec == "cscbgs" and bs > 1: continue
            m = Mx(bs)
            cfgs = [("apply", dict(apply_inittype=1), None)]
            if prec in ("jacobi", "gs", "sgs", "level_sgs"):
                cfgs += [("apply_relax", dict(apply_inittype=1), True), ("apply_relax", dict(apply_inittype=1), False)]
            for meth, kw, ctol in cfgs:
                i = Inst(p, prec, bs, stor, **kw)
                inst = "%s %s%s" % (i.name, meth, "" if ctol is None else " with tolerance check" if ctol else "")
                if i.obj is None:
                    c.bad(RULE, inst, "solverfactory", "the factory gives no object"); continue
                setparams(i, bool(ctol))
                tr = Trace(norm=lambda t, m=m: splitsums(t, m))
                pre = tr.feed(i.call("compute"))
                effs = i.call(meth, R, Z)
                ss = tr.feed(effs)
                c.used(i.I)
                ph = phases(ss, {Z})
                rows, row = rowloop(m, None, None)
                w = i.p.method(i.cls, meth)["file"]
                if prec == "none":
                    match(c, RULE, inst, ph, [dict(name="copy", elem=True, base=Z, n=scale(m.n, bs), val=load(R, D[0]), rep=[])], w)
                elif prec == "jacobi" and meth == "apply":
                    match(c, RULE, inst, ph, [dict(name="z = D^-1 r", base=Z, data=rows, off=m.so(row), val=mul(m.dinv(row), m.seg(R, row)), rep=[])], w)
                elif prec == "jacobi":
                    T1 = next((s.base for s in ph if s.base is not Z), None)
                    if T1 is None:
                        c.bad(RULE, inst, w, "Jacobi relaxation updates the iterate in place; each step must read only the previous iterate"); continue
                    match(c, RULE, inst, ph, [
                        dict(name="next iterate", base=T1, data=rows, off=m.so(row), val=spec_relax(m, Z, row), rep=[MAXITS]),
                        dict(name="copy back", elem=True, base=Z, n=scale(m.n, bs), val=load(T1, D[0]), rep=[MAXITS])], w)
                elif prec == "gs":
                    sw = [s for s in ph if not initial(s)] if meth == "apply" else ph      # the initial guess is P03's
                    match(c, RULE, inst, sw, [dict(name="sweep", base=Z, data=[(m.n, 1)], off=m.so(row), val=spec_relax(m, Z, row), rep=[NAPPLY if meth == "apply" else MAXITS])], w)
                elif prec == "cscbgs":
                    cscbgs(c, inst, ph, m, w)
                else:
                    lev = None
                    if prec == "level_sgs":
                        reg = levels_of(ph)
                        if reg is None: c.und(RULE, inst, w, "no level array found"); continue
                        szs = [s.data[0][0] for s in ph if len(s.data) == 2]
                        lev = (reg, szs[0])
                        size = i.st.cells.get(mk("fld", reg, "$size"))
                        c.req(size is not None and szs[0] is add(size, num(-1)), RULE, inst + ": all levels", w, "loops over %s levels; the level array has %s offsets" % (szs[0], size))
                    up, row = rowloop(m, lev, 1)
                    dn, row = rowloop(m, lev, -1)
                    if meth == "apply":
                        Y = next((s.base for s in ph if s.base is not Z), None)
                        if Y is None: c.bad(RULE, inst, w, "no intermediate vector between the forward and backward sweep"); continue
                        rep = [NAPPLY] if lev is None else []
                        fw = dict(name="forward sweep", base=Y, data=up, off=m.so(row), val=mul(m.dinv(row), sub(m.seg(R, row), m.lower(row, Y))), rep=rep)
                        bw = dict(name="backward sweep", base=Z, data=dn, off=m.so(row), val=sub(m.seg(Y, row), mul(m.dinv(row), m.upper(row, Z))), rep=rep)
                        sw = [s for s in ph if not initial(s)]      # initial guesses are P03's
                        match(c, RULE, inst, sw, [fw, bw], w)
                    else:
                        sp = spec_relax(m, Z, row)
                        match(c, RULE, inst, ph, [
                            dict(name="forward sweep", base=Z, data=up, off=m.so(row), val=sp, rep=[MAXITS]),
                            dict(name="backward sweep", base=Z, data=dn, off=m.so(row), val=sp, rep=[MAXITS])], w)
                # the backward sweep belongs to the same step as the forward sweep
                reps = [s.rep[0][1].uid for s in ph if s.rep and s.rep[0][0] is MAXITS]
                if meth == "apply_relax" and reps:
                    c.req(len(set(reps)) == 1, RULE, inst + ": one step", w, "the parts of one relaxation step are repeated in separate loops")
    c.need(RULE, 60)


def cscbgs(c, inst, ph, m, w):
    """column-oriented backward Gauss-Seidel: t = D^-1 r; for each column j descending: z_j = t_j, t_i -= D_i^-1 a_ij z_j"""
    T1 = next((s.base for s in ph if s.base is not Z), None)
    if T1 is None:
        c.bad(RULE, inst, w, "no work vector"); return
    ss = [s for s in ph if not (initial(s) and elementwise(s)[1] is ZERO)]
    if len(ss) != 3:
        c.bad(RULE, inst, w, "expected right-hand side, solution and update phases, found %d" % len(ss)); return
    match(c, RULE, inst, ss[:2], [
        dict(name="t = D^-1 r", elem=True, base=T1, n=m.n, val=mul(m.dinv(D[0]), load(R, D[0])), rep=[NAPPLY]),
        dict(name="z_j = t_j", base=Z, data=[(m.n, -1)], off=D[0], val=load(T1, D[0]), rep=[NAPPLY])], w)
    s = ss[2]
    # t[row(k)] -= dinv(row(k)) * v(k) * t[j] over the entries k above the diagonal of column j
    ok = len(s.data) == 2 and s.base is T1
    if ok:
        d = sub(s.val, load(T1, s.off))
        good = s.off.op == "load" and mentions(s.off, D[1])
        if good:
            rowi, k = s.off, s.off.a[1]
            vals = [x for x in walk(d) if x.op == "load" and x.a[1] is k and x.a[0] is not rowi.a[0]]
            good = len(vals) == 1 and d is neg(mul(mul(m.dinv(rowi), vals[0]), load(T1, D[0])))
            k0 = subst(k, {D[1]: ZERO})
            good = good and k0.op == "load" and k0.a[1] is D[0]                      # starts at the column's start
            top = add(k0, s.data[1][0])
            good = good and top.op == "load" and top.a[1] is D[0] and top.a[0] is not k0.a[0]   # ends before its diagonal
        ok = good
    c.req(ok, RULE, inst + ": column update", s.e.where(), "update is %r" % s) if not s.opaque() else c.und(RULE, inst + ": column update", s.e.where(), repr(s))


if __name__ == "__main__":
    main(check, "P04", "Value-flow normal form of every row update (factory-made object, compute, apply/apply_relax; each scalar/block class) compared with the row equations; loop ranges, directions and repeat counts included.",
         ["matrix arrays passed to the factory are well formed (sorted rows, diagonal present)", "distinct array arguments do not alias"])
