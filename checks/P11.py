"""Applications change only the output and scratch space, and start from the same state every time."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import re
from rowform import *
import threads

WRITES = ("store", "set", "fill", "resize", "push", "veccopy", "zeroinit", "setrec")
M, X, Y, ZZ = mk("obj", "M"), mk("obj", "x"), mk("obj", "y"), mk("obj", "z")
PRECS = [(x, bs, st) for x in PT for bs, st in ((1, 0), (4, 0), (4, 1), (5, 0)) if not (x == "cscbgs" and bs > 1)]


def check(c, p):
    jobs = [(prec, q, bs, st, ai, sc) for q, bs, st in PRECS for ai in ((0, 1) if q in ("ilu0", "sgs") else (1,)) for sc in ((False, True) if "ilu0" in q else (False,))]
    for f in p.funcs.values():
        if "body" not in f: continue
        m = re.match(r"blasted::(BSRMatrix|BSRMatrixView|CSRMatrixView)<.*>::(apply|gemv3)$", f["q"])
        if m: jobs.append((product, f["key"], True))
        elif f["q"].split("::")[-1] == "bcsc_gemv3": jobs.append((product, f["key"], False))
    c.par(p, jobs)
    c.need("frame", 60)
    c.need("matrix-untouched", 30)
    c.need("same-start", 30)


def root(b):
    while isinstance(b, T) and b.op in ("fld", "deref", "elem", "region", "off", "data", "ptr", "vec", "load", "sym") and b.a and isinstance(b.a[0], T): b = b.a[0]
    return b


def unknown(r):
    return r is None or not isinstance(r, T) or r.op not in ("obj", "heap", "heapobj", "fld", "region", "str")


def covers(s, total):
    """one statement assigns every element of the array a value that does not come from the array itself"""
    if mentions(s.val, s.base) or s.guards or len(s.data) != 1: return False
    k = coef_of(s.off, D[0])
    if k is None or numval(k) is None or numval(k) < 1 or sub(s.off, mul(k, D[0])) is not ZERO: return False
    return any(scale(s.data[0][0], numval(k)) is t for t in total)


def triangle(s, m, A):
    """a row-by-row assignment that reads the array only at columns strictly below (or above) the diagonal of its own row, in
    the order that has already assigned those"""
    if s.guards: return False
    if len(s.data) == 1 and any(threads.active(o) not in (False, None) for o in s.omps): return False      # other threads' rows may not be done
    off = s.off
    row = off if m.bs == 1 else scale(off, TM.Fraction(1, m.bs))
    if len(s.data) == 1: d = s.data[0][1]
    elif len(s.data) == 2: d = s.data[0][1] or s.data[1][1]
    else: return False
    v = s.val
    for x in walk(v):
        if x.op != "sum" or not mentions(x, A): continue
        n, body = x.a[0], x.a[2]
        lows = [(m.rowptr(row), sub(m.diag(row), m.rowptr(row)), 1), (add(m.diag(row), ONE), sub(sub(load(m.bp, add(row, ONE)), m.diag(row)), ONE), -1)]
        ok = False
        bvs = {y for y in walk(body) if y.op == "bv"}
        for lo, cnt, dr in lows:
            if n is cnt and d == dr and any(all(y.a[1] is m.so(m.col(add(lo, b))) for y in walk(body) if y.op in ("load", "mload") and y.a[0] is A) for b in bvs): ok = True
        if not ok: return False
        v = subst(v, {x: mk("sym", "$tri%d" % x.id)})
    return not mentions(v, A)


def prec(c, p, q, bs, stor, ai, sc):
    i = Inst(p, q, bs, stor, apply_inittype=ai, fact_inittype=1, scale=sc, compute_precinfo=True)
    w = "src/solverfactory.cpp"
    if i.obj is None: c.und("frame", i.name, w, "no object"); return
    setparams(i)
    m = Mx(bs)
    norm = lambda t: norm_end(t, m)
    for what in ("compute", "compute", "apply", "apply_relax"):
        n0 = len(i.I.eff)
        pre = {root(e.base) for e in i.I.eff if e.base is not None} | {R, Z, MAT, SET, SOLVEP, i.obj}
        cells = dict(i.st.cells)
        effs = i.call(what, *((R, Z) if what != "compute" else ()))
        if what != "compute" and i.threw: continue
        nm = "%s %s" % (i.name, what)
        w = i.p.method(i.cls, what)["file"]
        c.used(i.I)
        fresh = {e.base for e in effs if e.kind == "alloc"}
        wr = [e for e in effs if e.kind in WRITES and e.base is not None]
        # the given matrix
        hit = [e for e in wr if root(e.base) in (MAT, R, SET, SOLVEP)]
        c.req(not hit, "matrix-untouched", nm, hit[0].where() if hit else w, "writes %s, which belongs to the caller" % (hit[0].base if hit else ""))
        odd = [e for e in wr if e.kind == "store" and unknown(root(e.base))]
        for e in odd: c.und("frame", nm, e.where(), "writes through %s, whose target is not followed" % e.base)
        if what == "compute": continue
        # settings and other members of the object
        bad = []
        for k, v in i.st.cells.items():
            if root(k) is not i.obj or cells.get(k) is v: continue
            if v is not None and v.op == "ptr" and v.a[0] in fresh: continue
            e = next((e for e in wr if e.base is k), None)
            bad.append((e.where() if e else w, k, cells.get(k), v))
        for e in wr:
            if e.kind in ("resize", "push", "veccopy") and root(e.base) is i.obj: bad.append((e.where(), e.base, None, None))
        c.req(not bad, "frame", nm + ": members", bad[0][0] if bad else w, "changes %s of the preconditioner from %s to %s" % (bad[0][1:] if bad else ("", "", "")))
        # arrays that existed before
        olds = []
        for e in wr:
            if e.kind in ("store", "fill") and e.base is not None and e.base not in fresh and root(e.base) in pre and e.base is not Z and e.base not in olds and root(e.base) not in (MAT, R): olds.append(e.base)
        allocs = {e.base: e.val for e in i.I.eff[:n0] if e.kind == "alloc"}
        total = lambda A: [scale(m.n, bs)] + ([scale(allocs[A], TM.Fraction(1, 8)), allocs[A]] if A in allocs and allocs[A] is not None else [])
        ss = None
        for A in olds + ([Z] if what == "apply" else []):
            if ss is None:
                ss = merge_guarded([canon(e) for e in effs if e.kind == "store"])
                for s in ss: s.val, s.off, s.data = norm(s.val), norm(s.off), [(norm(n), d) for n, d in s.data]
            inst = "%s: %s" % (nm, "output" if A is Z else "array allocated in %s" % str(A).split("@")[-1].split(":")[0].rstrip(")"))
            cov, tri = None, None
            for s in ss:
                if s.base is not A: continue
                if covers(s, total(A)): cov = s.e; break
                if triangle(s, m, A): cov = tri = s.e; break
            rd = None
            for e in effs:
                if cov is not None and e.seq >= cov.seq: break
                if e.kind == "read" and e.base is A and not (tri is not None and tri.loops() and tri.loops()[-1] in e.loops()): rd = e; break
            if rd is None and cov is None:
                # never read here: only written
                if not any(e.kind == "read" and e.base is A for e in effs): c.ok("same-start", inst, w); continue
            if rd is None: c.ok("same-start", inst, w); continue
            und = any(s.base is A and s.opaque() for s in ss if s.e.seq <= rd.seq)
            (c.und if und else c.bad)("same-start", inst, rd.where(), "reads what %s held before this application; it is not reset in full first" % ("the output vector" if A is Z else A))


def product(c, p, key, method):
    f = next(x for x in p.funcs.values() if x["key"] == key)
    I, st = Interp(p, budget=400000), State()
    pt = lambda b: ("v", mk("ptr", b, ZERO))
    al, be = ("v", mk("sym", "alpha")), ("v", mk("sym", "beta"))
    three = f["q"].split("::")[-1] != "apply"
    base = [M] if not method else []
    if not method: a = {0: pt(M), 1: al, 2: pt(X), 3: be, 4: pt(Y), 5: pt(ZZ)}
    else: a = {0: pt(X), 1: pt(Y)} if not three else {0: al, 1: pt(X), 2: be, 3: pt(Y), 4: pt(ZZ)}
    out = ZZ if three else Y
    I.run(f, args=a, this=M if method else None, cls=f.get("cls"), st=st)
    c.used(I)
    nm = f.get("fn", f["q"]).replace("blasted::", "")
    ins = {M, X, Y, ZZ} - {out}
    hit = [e for e in I.eff if e.kind in WRITES and e.base is not None and root(e.base) in ins]
    c.req(not hit, "frame", nm, hit[0].where() if hit else f["file"], "writes %s, which is an input of the product" % (hit[0].base if hit else ""))
    bad = [e for e in I.eff if e.kind == "store" and unknown(root(e.base))]
    for e in bad[:1]: c.und("frame", nm, e.where(), "writes through %s" % e.base)


if __name__ == "__main__":
    main(check, "P11", "Write effects of compute, apply and apply_relax of every preconditioner and of every matrix product, classified by the object they belong to (caller's matrix and vectors, settings and data of the preconditioner, output, scratch); for each kept scratch array and the output, every read in an application is preceded by an assignment of the whole array in that application.",
         ["distinct array arguments do not alias", "SGS with the initial guess 'none' is documented to keep earlier values and is excluded"])
