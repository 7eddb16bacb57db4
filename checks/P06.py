"""Application of incomplete factorisations: unit-lower solve of the scaled right-hand side, upper solve, final scaling."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from ilu import *

RULE = "triangular-solve"


def check(c, p):
    c.par(p, [(one_cfg, prec, bs, stor, sc, ai) for prec in ILUS for bs, stor in VARIANTS for sc in (False, True) for ai in ((0, 1) if prec == "ilu0" else (1,))])
    c.need(RULE, 90)


def one_cfg(c, p, prec, bs, stor, sc, ai):
    u = Ilu(p, prec, bs, stor, scale=sc, apply_inittype=ai)
    w = "src/solverops_ilu0.cpp"
    if u.i.obj is None:
        c.bad(RULE, u.name, "src/solverfactory.cpp", "the factory gives no object"); return
    if u.LU is None: c.und(RULE, u.name, w, "no factor array identified"); return
    if sc and u.SC is None: c.bad("scaling", u.name, w, "scaling is requested but no scaling vector is computed"); return
    m = u.m
    a = IluApply(u)
    c.used(u.i.I)
    w = u.i.p.method(u.i.cls, "apply")["file"]
    if a.threw: c.bad(RULE, u.name, w, "the application always throws")
    for nm, l in (("lower solve", a.fw), ("upper solve", a.bw)):
        if len(l) != 1: c.bad(RULE, "%s: %s" % (u.name, nm), l[1].e.where() if l else w, "%d updates found, required 1" % len(l))
    if len(a.fw) != 1 or len(a.bw) != 1: return
    fw, bw = a.fw[0], a.bw[0]

    def cmp_(s, nm, dirn, wants):
        row, err = a.rows(s, dirn)
        n = "%s: %s" % (u.name, nm)
        if err: (c.und if s.opaque() and row is None and any(opaque(x) for x, _ in s.data) and a.lev is None else c.bad)(RULE, n, s.e.where(), err); return
        ws = wants(row)
        if s.off is not m.so(row): c.bad(RULE, n, s.e.where(), "position: " + diffterm(s.off, m.so(row)))
        elif s.guards: c.bad(RULE, n, s.e.where(), "only under condition %s" % s.guards)
        elif s.val in ws: c.ok(RULE, n, s.e.where())
        else: (c.und if opaque(s.val) else c.bad)(RULE, n, s.e.where(), "value: " + diffterm(s.val, ws[0]))

    def lower(row):
        L = m.lower(row, a.Y, u.LU)
        if not sc: return [sub(m.seg(R, row), L)]
        if bs == 1: return [sub(mul(load(u.SC, row), load(R, row)), L)]
        return [sub(m.seg(Z, row), L)]

    def upper(row):
        d = m.blk(u.LU, m.diag(row))
        return [mul(inv(d) if bs == 1 else d, sub(m.seg(a.Y, row), m.upper(row, Z, u.LU)))]

    cmp_(fw, "lower solve", 1, lower)
    cmp_(bw, "upper solve", -1, upper)
    if sc and bs > 1:
        e = elementwise(a.zpre[-1]) if a.zpre else None
        c.req(e is not None and e[0] is scale(m.n, bs) and e[1] is mul(load(u.SC, D[0]), load(R, D[0])), "input-scaling", u.name,
              a.zpre[-1].e.where() if a.zpre else w, "right-hand side of the lower solve must be the scaled input: %s" % a.zpre)
    if sc:
        good = len(a.zpost) == 1
        if good:
            e = elementwise(a.zpost[0])
            good = e is not None and e[0] is scale(m.n, bs) and e[1] is mul(load(u.SC, D[0]), load(Z, D[0])) and not a.zpost[0].rep
        c.req(good, "output-scaling", u.name, a.zpost[0].e.where() if a.zpost else w, "the result must be scaled exactly once by the same vector: %s" % a.zpost)
    else:
        c.req(not a.zpost, "output-scaling", u.name, a.zpost[0].e.where() if a.zpost else w, "the result is changed after the upper solve though no scaling is in use: %s" % a.zpost)
    for s in a.zinit:
        e = elementwise(s)
        c.req(e is not None and not s.rep and (e[1] is ZERO or (e[1].op == "load" and e[1].a[0] is a.Y)), "guess", u.name, s.e.where(), "between the solves the output is set to %r" % s)
    if a.lev is not None:
        size = u.i.st.cells.get(mk("fld", a.lev, "$size"))
        for s in (fw, bw):
            c.req(size is not None and s.data[0][0] is add(size, num(-1)), RULE, u.name + ": all levels", s.e.where(), "loops over %s levels; the level array has %s offsets" % (s.data[0][0], size))


if __name__ == "__main__":
    main(check, "P06", "Value-flow normal form of the lower and upper triangular solves of every factorisation class (all kinds, block sizes, scaling on/off), compared with the row equations on the same factor array the computation fills.",
         ["matrix rows sorted, unpadded, diagonal present", "distinct array arguments do not alias"])
