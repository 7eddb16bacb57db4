"""What a preconditioner advertises (relaxation, dimension) is what it does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from rowform import *

PRECS = [(x, bs, st) for x in PT for bs, st in ((1, 0), (4, 0), (4, 1), (5, 0)) if not (x == "cscbgs" and bs > 1)]


def check(c, p):
    jobs = [(prec, q, bs, st) for q, bs, st in PRECS]
    c.par(p, jobs)
    views(c, p)
    others(c, p)
    c.need("advertised", 20)
    c.need("dimension", 20)


def prec(c, p, q, bs, stor):
    i = Inst(p, q, bs, stor, apply_inittype=1, fact_inittype=1)
    if i.obj is None: c.und("advertised", i.name, "src/solverfactory.cpp", "no object"); return
    setparams(i)
    i.call("compute")
    n = len(i.I.eff)
    i.call("relaxationAvailable")
    a, f = i.ret, p.method(i.cls, "relaxationAvailable")
    w = p.loc(f).replace("/repo/", "")
    adv = True if a is TRUE or a is ONE else False if a is FALSE or a is ZERO else None
    effs = i.call("apply_relax", R, Z)
    threw = i.threw
    fr = p.method(i.cls, "apply_relax")
    wr = p.loc(fr).replace("/repo/", "")
    c.used(i.I)
    ss = [canon(e) for e in effs if e.kind == "store" and e.base is Z]
    cond = [e for e in effs if e.kind == "throw"]
    if adv is None: c.und("advertised", i.name, w, "relaxationAvailable() gives %s" % a)
    elif adv:
        c.req(not cond and not threw, "advertised", i.name + ": advertised relaxation runs", cond[0].where() if cond else wr, "claims to be a relaxation but raises an exception when asked to relax")
        m = Mx(bs)
        # a relaxation step corrects the iterate: it reads the right-hand side and the iterate itself, and runs as often as asked
        rows = [s for s in ss if [n for n, L in s.rep] == [MAXITS] or any(n is MAXITS for n, L in s.rep)]
        reads = {e.base for e in effs if e.kind == "read"}
        c.req(bool(ss) and bool(rows), "advertised", i.name + ": the iterate is updated", ss[0].e.where() if ss else wr, "the iterate is not updated once per requested step: %s" % ss)
        c.req(R in reads and Z in reads and any(b.op == "deref" and "vals" in str(b) for b in reads), "advertised", i.name + ": uses residual", wr, "a relaxation step must use the right-hand side, the present iterate and the matrix; it reads %s" % sorted(map(str, reads)))
    else:
        c.req(threw and not ss or (not ss and not cond and q == "none"), "advertised", i.name + ": refuses to relax", ss[0].e.where() if ss else wr,
              "is no relaxation, but apply_relax " + ("writes the iterate" if ss else "returns silently" if not cond else "raises an exception only sometimes"))
        if q in ("jacobi", "gs", "sgs", "level_sgs"): c.bad("advertised", i.name + ": documented relaxation", w, "a documented relaxation says it cannot relax")
    i.call("dim")
    c.req(i.ret is scale(Mx(bs).n, bs), "dimension", i.name, p.loc(p.method(i.cls, "dim")).replace("/repo/", ""), "dim() gives %s, required %s" % (i.ret, scale(Mx(bs).n, bs)))


def others(c, p):
    """classes users construct directly"""
    T_ = mk("obj", "prec")
    for f in sorted((f for f in p.funcs.values() if "body" in f and f["q"].endswith("::apply_relax") and len(f["params"]) == 2), key=lambda f: f["q"]):
        cls = f.get("cls")
        g = p.method(cls, "relaxationAvailable") if cls else None
        if g is None or "body" not in g or "NoPreconditioner" in cls: continue
        I, st = Interp(p), State()
        a = I.run(g, this=T_, cls=cls, st=st)
        if a is not FALSE and a is not ZERO: continue
        I, st = Interp(p), State()
        I.run(f, args={0: ("v", mk("ptr", R, ZERO)), 1: ("v", mk("ptr", Z, ZERO))}, this=T_, cls=cls, st=st)
        c.used(I)
        wr = [e for e in I.eff if e.kind == "store"]
        c.req(st.dead == "throw" and not wr, "advertised", cls.replace("blasted::", "") + ": refuses to relax", wr[0].where() if wr else p.loc(f).replace("/repo/", ""), "is no relaxation, but apply_relax does not raise an exception")


def views(c, p):
    """matrices report the number of scalar unknowns as well"""
    import re
    M = mk("obj", "M")
    for f in p.funcs.values():
        if "body" not in f: continue
        m = re.match(r"blasted::(BSRMatrix|BSRMatrixView|CSRMatrixView)<double, int(?:, (\d+))?(?:, Eigen::\w+)?>::dim$", f["q"])
        if not m: continue
        I, st = Interp(p), State()
        r = I.run(f, this=M, cls=f.get("cls"), st=st)
        c.used(I)
        want = scale(mk("sym", mk("fld", mk("fld", M, "mat"), "nbrows")), int(m.group(2) or 1))
        c.req(r is want, "dimension", f["q"].replace("blasted::", ""), p.loc(f).replace("/repo/", ""), "dim() gives %s, required %s" % (r, want))


if __name__ == "__main__":
    main(check, "P22", "For every preconditioner the factory makes: the value of relaxationAvailable, the exceptions and writes of apply_relax under symbolic parameters, and the value of dim, compared with each other.",
         ["a relaxation step's formula is P04's subject"])
