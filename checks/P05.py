"""Incomplete factorisation: each factor entry by its fixed-point equation; diagonal blocks inverted once at the end."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from ilu import *

RULE = "factor-equation"


def check(c, p):
    c.par(p, [(one_cfg, prec, bs, stor, sc) for prec in ILUS for bs, stor in VARIANTS for sc in (False, True)])
    c.need(RULE, 100)
    c.need("diagonal-inverse", 30)


def one_cfg(c, p, prec, bs, stor, sc):
    u = Ilu(p, prec, bs, stor, scale=sc)
    w = "src/solverops_ilu0.cpp"
    if u.i.obj is None:
        c.bad(RULE, u.name, "src/solverfactory.cpp", "the factory gives no object"); return
    c.used(u.i.I)
    m, ss = u.m, u.ss[0]
    if u.LU is None:
        c.und(RULE, u.name, w, "no factor array identified"); return
    if u.i.threw: c.bad(RULE, u.name, w, "computing the factorisation throws")
    if sc:
        sl = u.scaling(ss)
        if u.SC is None: c.bad("scaling", u.name, w, "scaling is requested but no scaling vector is computed"); return
        for s in sl: c.req(u.scale_ok(s), "scaling", u.name, s.e.where(), "scaling vector is %r" % s)
    else:
        if u.SC is not None: c.bad("scaling", u.name, w, "a scaling vector is computed though scaling was not requested")
    init, sw, fin = u.split(ss)
    done = {}
    if u.PP is None or u.LP is None or u.UP is None:
        (c.und if any(s.opaque() for s in init + sw + fin) else c.bad)(RULE, u.name, sw[0].e.where() if sw else w, "the factor entries do not subtract the products of lower and upper entries"); return
    for s in sw:
        e = entries(s, m)
        if e is None:
            (c.und if s.opaque() else c.bad)(RULE, "%s: sweep store" % u.name, s.e.where(), "not an update of the entries of all rows: %r" % s); continue
        c.req(e.rowdir == 1 and e.entdir == 1, "ascending", "%s: %s" % (u.name, "/".join(e.vals)), e.where, "rows and entries are not visited in ascending order")
        for part, v in e.vals.items():
            n = "%s: %s" % (u.name, {"L": "below the diagonal", "D": "on the diagonal", "U": "above the diagonal"}[part])
            if part in done:
                c.bad(RULE, n, e.where, "entries %s are written twice per sweep" % part); continue
            done[part] = 1
            want = u.eqn(part)
            if v is want: c.ok(RULE, n, e.where)
            else: (c.und if opaque(v) else c.bad)(RULE, n, e.where, diffterm(v, want))
    miss = [x for x in PARTS if x not in done]
    if miss: c.bad(RULE, "%s: coverage" % u.name, w, "no equation is evaluated for the entries %s" % miss)
    # after the last sweep
    if bs == 1:
        for s in fin: c.bad("diagonal-inverse", u.name, s.e.where(), "the factor is changed after the last sweep: %r" % s)
        if not fin: c.ok("diagonal-inverse", u.name, w)
    else:
        good = len(fin) == 1
        if good:
            s = fin[0]
            e = entries(s, m)
            good = e is not None and list(e.vals) == ["D"] and e.vals["D"] is minv(u.lu(J_)) and not s.rep
        c.req(good, "diagonal-inverse", u.name, fin[0].e.where() if fin else w,
              "after the last sweep the diagonal blocks must be replaced by their inverses exactly once; found %s" % fin)


if __name__ == "__main__":
    main(check, "P05", "Value-flow normal form of the factor array at every sweep, for each factorisation class, block size, storage order and scaling choice, compared per row part with the ILU(0) fixed-point equation.",
         ["the matrix rows are sorted, unpadded and contain the diagonal", "distinct array arguments do not alias"])
