"""Solver names, types, block sizes and storage orders select the documented method or are rejected."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from lib import *
from threads import threaded

NAMES = {"none": "none", "jacobi": "jacobi", "gs": "gs", "sgs": "sgs", "ilu0": "ilu0", "seqilu0": "seqilu0", "sfilu0": "sfilu0", "sapilu0": "sapilu0",
         "cscbgs": "cscbgs", "level_sgs": "level_sgs", "async_level_ilu0": "async_level_ilu0"}
UNKNOWN = ["", "ILU0", "ilu", "ilu00", "sgs ", "external", "no_such_method", "level_ilu0", "bgs"]
SCALAR = {"jacobi": "JacobiSRPreconditioner", "gs": "ChaoticRelaxation", "sgs": "AsyncSGS_SRPreconditioner", "ilu0": "AsyncILU0_SRPreconditioner",
          "seqilu0": "AsyncILU0_SRPreconditioner", "sfilu0": "AsyncILU0_SRPreconditioner", "sapilu0": "AsyncILU0_SRPreconditioner",
          "cscbgs": "CSC_BGS_Preconditioner", "level_sgs": "Level_SGS", "async_level_ilu0": "Async_Level_ILU0", "none": "NoPreconditioner"}
BLOCK = {"jacobi": "BJacobiSRPreconditioner", "gs": "ChaoticBlockRelaxation", "sgs": "AsyncBlockSGS_SRPreconditioner", "ilu0": "AsyncBlockILU0_SRPreconditioner",
         "seqilu0": "AsyncBlockILU0_SRPreconditioner", "sfilu0": "AsyncBlockILU0_SRPreconditioner", "sapilu0": "AsyncBlockILU0_SRPreconditioner",
         "level_sgs": "Level_BSGS", "async_level_ilu0": "Async_Level_BlockILU0", "none": "NoPreconditioner"}
SUPPORTED = [(1, 0), (1, 1), (4, 0), (5, 0), (4, 1)]
UNSUPPORTED = [(b, s) for b in (2, 3, 6, 7, 8, 10, 16) for s in (0, 1)] + [(5, 1), (0, 0), (-1, 0), (-4, 1), (4, 2), (5, 2), (7, 3)]
# (construction threaded, application threaded) where the method's documentation says so
THREADS = {"ilu0": (True, True), "seqilu0": (False, False), "sfilu0": (False, True), "sapilu0": (True, False), "async_level_ilu0": (True, True),
           "gs": (None, True), "sgs": (None, True), "level_sgs": (None, True), "cscbgs": (None, True)}
W = "src/solverfactory.cpp"


def check(c, p):
    names(c, p)
    enum(c, p)
    c.par(p, [(made, prec, bs, stor) for prec in SCALAR for bs, stor in SUPPORTED] +
          [(rejected, prec, bs, stor) for prec in SCALAR for bs, stor in UNSUPPORTED] +
          [(rejected_type, t, bs, stor) for t in (11, 12, 99, -1) for bs, stor in SUPPORTED] +
          [(threads, prec, bs, stor) for prec in THREADS for bs, stor in SUPPORTED if (bs, stor) != (1, 1)])
    c.need("name", 10); c.need("unknown-name", 5); c.need("class", 40); c.need("rejection", 40); c.need("threading", 20)


def globstr(p, t):
    """string value of a term: a literal, or a constant global initialised with one"""
    if t.op == "str": return t.a[0]
    for x in walk(t):
        if x.op in ("str",): return x.a[0]
    return None


def names(c, p):
    f = one(p, "blasted::SRFactory<double, int>::solverTypeFromString", 1)
    for nm in list(NAMES) + UNKNOWN:
        I = Interp(p); st = State()
        arg = mk("str", nm)
        try:
            r = I.run(f, args={0: ("v", arg)}, cls=f["cls"], st=st, this=mk("obj", "factory"))
        except Exception as e:
            c.und("name", nm, W, "%s: %s" % (type(e).__name__, e)); continue
        c.used(I)
        rule = "name" if nm in NAMES else "unknown-name"
        if nm in NAMES:
            if st.dead == "throw": c.bad(rule, repr(nm), c_loc(p, f), "this documented name is rejected with an exception")
            elif r is not None and numval(r) is not None:
                c.req(numval(r) == PT[NAMES[nm]], rule, repr(nm), c_loc(p, f), "gives solver type %s, required %s" % (numval(r), PT[NAMES[nm]]))
            else: c.und(rule, repr(nm), c_loc(p, f), "result %s" % (show(r)[:200] if r is not None else None))
        else:
            thr = [e for e in I.eff if e.kind == "throw"]
            if st.dead == "throw": c.ok(rule, repr(nm), c_loc(p, f))
            elif r is not None and numval(r) is not None and not thr:
                c.bad(rule, repr(nm), c_loc(p, f), "this unknown name is accepted as solver type %s" % numval(r))
            else: c.und(rule, repr(nm), c_loc(p, f), "result %s" % (show(r)[:200] if r is not None else None))


def c_loc(p, f): return p.loc(f)


def enum(c, p):
    """distinct solver types have distinct values"""
    e = next((e for n, e in p.enums.items() if n.endswith("BlastedSolverType") or any(x[0] == "BLASTED_JACOBI" for x in items_of(e))), None)
    if e is None: return
    vals = [v for n, v in items_of(e)]
    c.req(len(vals) == len(set(vals)), "class", "solver types distinct", "include/solvertypes.h", "two solver types share a value: %s" % items_of(e))


def items_of(e):
    out = []
    for x in e.get("items", e.get("vals", [])):
        out.append((x.get("n"), x.get("v")) if isinstance(x, dict) else tuple(x)[:2])
    return out


def made(c, p, prec, bs, stor):
    nm = "%s, block size %d, %s" % (prec, bs, ("column-major", "row-major")[stor])
    i = Inst(p, prec, bs, stor)
    c.used(i.I)
    want = (SCALAR if bs == 1 else BLOCK).get(prec)
    if want is None:
        if i.dead == "throw" and i.obj is None: c.ok("rejection", nm, W)
        elif i.obj is not None or i.res is NULL or (i.res is not None and i.res.op == "null"): c.bad("rejection", nm, W, "there is no such method for this block size, yet the factory returns %s" % (i.cls or i.res))
        else: c.und("rejection", nm, W, "result %s" % i.res)
        return
    if i.obj is None or i.cls is None:
        if i.dead == "throw": c.bad("class", nm, W, "a supported request is rejected with an exception")
        elif i.res is not None and (i.res is ZERO or i.res.op == "null" or i.res is NULL): c.bad("class", nm, W, "a null object is returned")
        else: c.und("class", nm, W, "result %s" % (show(i.res)[:200] if i.res is not None else None))
        return
    full = "%s<double,int%s>" % (want, "" if bs == 1 or prec == "none" else ",%d,%s" % (bs, stor_name(stor)))
    good = re.sub(r"\w+::| ", "", i.cls) in (full, full.replace(stor_name(stor), str(stor)))
    c.req(good, "class", nm, W, "gives a %s, required %s" % (i.cls, full))
    if prec == "none":
        f = p.method(i.cls, "dim")
        i.call("dim")
        d = mul(num(bs), Mx(bs).n)
        c.req(i.ret is d, "class", nm + ", dimension", W, "the identity reports dimension %s, required %s" % (i.ret, d))


def stor_name(s): return ("ColMajor", "RowMajor")[s]


def rejected(c, p, prec, bs, stor):
    nm = "%s, block size %d, storage %d" % (prec, bs, stor)
    i = Inst(p, prec, bs, stor)
    if i.dead == "throw" and i.obj is None: c.ok("rejection", nm, W)
    elif i.obj is not None: c.bad("rejection", nm, W, "an unsupported block size or order yields %s" % i.cls)
    elif i.res is not None and i.res.op == "null": c.bad("rejection", nm, W, "an unsupported block size or order yields a null object")
    else: c.und("rejection", nm, W, "result %s" % i.res)


def rejected_type(c, p, t, bs, stor):
    nm = "solver type %d, block size %d" % (t, bs)
    PT["?"] = t
    i = Inst(p, "?", bs, stor)
    if i.dead == "throw" and i.obj is None: c.ok("rejection", nm, W)
    elif i.obj is not None: c.bad("rejection", nm, W, "an unknown solver type yields %s" % i.cls)
    elif i.res is not None and i.res.op == "null": c.bad("rejection", nm, W, "an unknown solver type yields a null object")
    else: c.und("rejection", nm, W, "result %s" % i.res)


def threads(c, p, prec, bs, stor):
    if bs > 1 and prec not in BLOCK: return
    i = Inst(p, prec, bs, stor, fact_inittype=1, apply_inittype=1, compute_precinfo=False, scale=False)
    if i.obj is None: return
    want = THREADS[prec]
    for k, meth, args in ((0, "compute", ()), (1, "apply", (R, Z))):
        effs = i.call(meth, *args)
        if want[k] is None: continue
        got, where = threaded(i, effs, meth)
        nm = "%s: %s" % (i.name, "construction" if k == 0 else "application")
        if got is None: c.und("threading", nm, where, "no sweep found"); continue
        if isinstance(got, T): c.bad("threading", nm, where, "the method runs threaded only if %s" % got); continue
        c.req(got == want[k], "threading", nm, where, "runs %s, documented as %s" % (("sequentially", "threaded")[got], ("sequential", "threaded")[want[k]]))
    if bs > 1:
        setparams(i)
        i.call("apply_relax", R, Z)
        va = matarr("vals")
        if va in i.I.layout:
            for base, d in i.I.layout.items():
                for (r, k, o), at in d.items():
                    c.req((r, k) == (bs, bs) and o == stor, "block-layout", "%s: %s" % (i.name, "matrix" if base is va else base), at.replace("/repo/", ""),
                          "blocks accessed as %dx%d %s-major, required %dx%d %s-major" % (r, k, ("column", "row")[o], bs, bs, ("column", "row")[stor]))
        else: c.und("block-layout", i.name, W, "no block access to the matrix values")


if __name__ == "__main__":
    main(check, "P01", "solver-name map and factory evaluated for every documented name, undocumented names, and every solver type with supported and unsupported block sizes and storage orders; the class of the object created, exceptions, and the parallel regions around its sweeps, and the block layout of every typed access to the matrix and the factors, are compared with the documentation")
