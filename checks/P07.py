"""Matrix-vector products in every storage format."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import re
from rowform import *

RULE = "product"
M, X, Y, ZZ = mk("obj", "M"), mk("obj", "x"), mk("obj", "y"), mk("obj", "z")
AL, BE = mk("sym", "alpha"), mk("sym", "beta")


def check(c, p):
    jobs = []
    for f in p.funcs.values():
        if "body" not in f: continue
        q = f["q"]; n = q.split("::")[-1]
        m = re.match(r"blasted::(BSRMatrix|BSRMatrixView|CSRMatrixView)<double, int(?:, (\d+))?(?:, Eigen::(\w+))?>::(apply|gemv3)$", q)
        if m: jobs.append((rowwise, f["key"], m.group(1), int(m.group(2) or 1), m.group(3) if m.group(1) == "BSRMatrixView" else "RowMajor"))
        elif n == "bcsc_gemv3": jobs.append((column, f["key"]))
    c.par(p, jobs)
    c.need(RULE, 8)


def pt(b): return ("v", mk("ptr", b, ZERO))


def by_id(p, k): return next(f for f in p.funcs.values() if f["key"] == k)


def arr(base, name, viaview):
    f = mk("fld", base, name)
    return mk("deref", mk("fld", f, "data")) if viaview else mk("deref", f)


def rowwise(c, p, fid, kind, bs, order):
    f = by_id(p, fid)
    what = f["q"].split("::")[-1]
    name = f["q"].replace("blasted::", "").replace("double, int", "..").replace("Eigen::", "")
    I, st = Interp(p, budget=400000), State()
    a = {0: pt(X), 1: pt(Y)} if what == "apply" else {0: ("v", AL), 1: pt(X), 2: ("v", BE), 3: pt(Y), 4: pt(ZZ)}
    I.run(f, args=a, this=M, cls=f.get("cls"), st=st)
    c.used(I)
    out = Y if what == "apply" else ZZ
    mat = mk("fld", M, "mat")
    m = Mx(bs, arr=lambda n: arr(mat, n, True), base=mat)
    norm = lambda t: norm_end(t, m)
    ss = fold(Trace(norm=norm).feed(I.eff))
    w = "src/blockmatrices.ipp"
    i = D[0]
    want = m.rowsum(m.rowptr(i), load(m.bp, add(i, ONE)), X)
    if what == "gemv3": want = add(mul(AL, want), mul(BE, m.seg(Y, i)))
    mine = [s for s in ss if s.base is out]
    for s in ss:
        if s.base is not out and not (s.base.op == "heap") and not loc(s.base): c.bad(RULE, name + ": other", s.e.where(), "writes %s" % s.base)
    if st.dead == "throw": c.bad(RULE, name, w, "always throws"); return
    if len(mine) == 1:
        s = mine[0]
        errs = []
        if [n for n, d in s.data] != [m.n]: errs.append("covers rows %s, required all %s rows" % ([n for n, d in s.data], m.n))
        if s.off is not m.so(i): errs.append("position: " + diffterm(s.off, m.so(i)))
        if s.val is not want: errs.append("value: " + diffterm(s.val, want))
        if s.guards: errs.append("only under condition %s" % s.guards)
        if s.rep: errs.append("repeated")
        if not errs: c.ok(RULE, name, s.e.where())
        else: (c.und if s.opaque() or other_form(s.val, want) else c.bad)(RULE, name, s.e.where(), "; ".join(errs))
    elif not mine: c.bad(RULE, name, w, "the result is never written")
    else:
        s = mine[-1]
        (c.und if any(x.opaque() or other_form(x.val, want) for x in mine) else c.bad)(RULE, name, s.e.where(), "not one value per row: %s" % mine)
    if bs > 1: layouts(c, I, {m.va: (bs, order)}, name, w)


def layouts(c, I, want, name, w):
    for b, (bs, order) in want.items():
        for (r, k, o), at in I.layout.get(b, {}).items():
            c.req((r, k) == (bs, bs) and (o == 1) == (order == "RowMajor"), "block-layout", name, at.replace("/repo/", ""),
                  "blocks of the matrix are read as %dx%d %s, stored as %dx%d %s" % (r, k, "row-major" if o else "column-major", bs, bs, order))


def loc(b): return b.op == "region" and b.a[0].op == "obj" and "#" in str(b.a[0].a[0])


def column(c, p, fid):
    f = by_id(p, fid)
    m = re.search(r"<double, int, (\d+)(?:, Eigen::(\w+))?>$", f["fn"])
    if m is None: raise AnalysisBroken("template arguments of %s" % f["fn"])
    bs, order = int(m.group(1)), m.group(2) or "ColMajor"
    I, st = Interp(p, budget=400000), State()
    C = mk("obj", "C")
    I.run(f, args={0: pt(C), 1: ("v", AL), 2: pt(X), 3: ("v", BE), 4: pt(Y), 5: pt(ZZ)}, st=st)
    c.used(I)
    cp, ri, va = arr(C, "bcolptr", False), arr(C, "browind", False), arr(C, "vals", False)
    n = mk("sym", mk("fld", C, "nbcols"))
    name = "bcsc_gemv3<%d,%s>" % (bs, order)
    if bs > 1: layouts(c, I, {va: (bs, order)}, name, "src/blas/matvecs.cpp")
    ss = Trace().feed(I.eff)
    mine = [s for s in ss if s.base is ZZ]
    w = "src/blas/matvecs.cpp"
    for s in ss:
        if s.base is not ZZ and not loc(s.base): c.bad(RULE, name + ": other", s.e.where(), "writes %s" % s.base)
    if len(mine) != 2:
        (c.und if any(s.opaque() for s in mine) else c.bad)(RULE, name, w, "required: one pass setting z to beta*y and one adding the columns; found %s" % mine); return
    a, b = mine
    ew = elementwise(a)
    want0 = mul(BE, load(Y, D[0]))
    seg0 = len(a.data) == 1 and a.data[0][0] is n and a.off is scale(D[0], bs) and a.val is mul(BE, mload(Y, scale(D[0], bs))) and not a.guards
    c.req(seg0 or (ew is not None and ew[0] is scale(n, bs) and ew[1] is want0), RULE, name + ": start", a.e.where(),
          "the result must start as beta*y over all %d*nbcols elements; found %r" % (bs, a))
    j = add(load(cp, D[0]), D[1])
    dat = [(n, ), (sub(load(cp, add(D[0], ONE)), load(cp, D[0])),)]
    errs = []
    nd = [(x,) for x, d in b.data]
    blk = mul(mul(AL, mload(va, scale(j, bs * bs)) if bs > 1 else load(va, j)), mload(X, scale(D[0], bs)) if bs > 1 else load(X, D[0]))
    row = scale(load(ri, j), bs)
    if nd[:2] != dat: errs.append("visits %s, required every entry of every column" % (b.data,))
    d = sub(b.val, load(ZZ, b.off) if mentions(b.val, load(ZZ, b.off)) else mload(ZZ, b.off))
    if len(nd) == 3 and nd[2] == (num(bs),):
        if b.off is not add(row, D[2]): errs.append("position: " + diffterm(b.off, add(row, D[2])))
        el = mul(AL, mk("elemof", mul(mload(va, scale(j, bs * bs)), mload(X, scale(D[0], bs))), D[2], ZERO))
        if d not in (mk("elemof", blk, D[2], ZERO), el): errs.append("adds: " + diffterm(d, mk("elemof", blk, D[2], ZERO)))
    else:
        if len(nd) != 2: errs.append("visits %s" % (b.data,))
        if b.off is not row: errs.append("position: " + diffterm(b.off, row))
        if d is not blk: errs.append("adds: " + diffterm(d, blk))
    if b.guards or b.rep: errs.append("conditional or repeated: %s %s" % (b.guards, b.rep))
    if errs: (c.und if b.opaque() or other_form(b.val, blk) else c.bad)(RULE, name + ": columns", b.e.where(), "; ".join(errs))
    else: c.ok(RULE, name + ": columns", b.e.where())


if __name__ == "__main__":
    main(check, "P07", "Value-flow normal form of the output vector of every matrix-vector operation (views and owning matrices, all instantiated block sizes and orders, column storage), accumulation loops turned into sums and compared with a*A*x+b*y; every typed block access compared with the storage order of the matrix.",
         ["the input vector x does not alias the output", "the stored row ends are the next row's start (no padding)"])
