"""A matrix object describes the data it was made from, however it was made, and assembly reaches the right entries."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rel import *
from model import *
from P18 import FIELDS, at, pieces, together, short

SELF, OTHER = mk("obj", "self"), mk("obj", "other")
MAT = mk("fld", SELF, "mat")
N = mk("sym", "n")
PTRS, COLS, VALS, DIAGS, ENDS = (mk("obj", x) for x in ("row pointers", "column indices", "values", "diagonal positions", "row ends"))
BUF = mk("obj", "buffer")
S, J, BI, BJ = (mk("sym", x) for x in ("i", "j", "bi", "bj"))


def check(c, p):
    jobs = []
    for f in sorted(p.funcs.values(), key=lambda f: f["key"]):
        cls = (f.get("cls") or "").replace("blasted::", "")
        if "body" not in f: continue
        base = cls.split("<")[0]
        if base in ("BSRMatrix", "SRMatrixView", "BSRMatrixView", "CSRMatrixView", "SRMatrixStorage", "RawBSRMatrix", "CRawBSRMatrix"):
            if f.get("ctor"): jobs.append((made, f["key"]))
            elif f["n"] == "setStructure": jobs.append((pattern, f["key"]))
            elif f["n"] in ASSEMBLY: jobs.append((assembly, f["key"]))
            elif f["n"] in ("dim", "getRawSRMatrix", "getSRStorage"): jobs.append((described, f["key"]))
            elif f["n"] == "isEqual": jobs.append((compared, f["key"]))
            elif f["n"] == "computeOrderingScaling": jobs.append((handed, f["key"]))
            elif f["n"] in QUERIES: jobs.append((query, f["key"]))
    c.par(p, jobs)
    for r, n in (("from-pattern", 10), ("wrapping", 20), ("taking-over", 10), ("empty", 6), ("copying", 10), ("assembly", 8), ("description", 8), ("comparison", 5)): c.need(r, n)


def cls_of(f): return (f.get("cls") or "").replace("blasted::", "").replace("Eigen::", "")


def bsize(f):
    k = cls_of(f)
    if k.startswith("BSRMatrix"): return int(k.split("<")[1].split(">")[0].split(",")[2])
    return 1 if k.startswith("CSR") else None


class Made:
    """the matrix object after a function has run on it"""

    def __init__(self, c, p, f, args=None, obj=MAT, this=SELF, noinline=(), models={}):
        I = self.I = Interp(p, budget=900000)
        st = self.st = State()
        I.noinline = {g["q"] for g in p.funcs.values() if g["n"] in noinline}
        for k, v in models.items(): I.models[k] = v
        self.ret = I.run(f, args=args or {}, this=this, cls=f.get("cls"), st=st)
        c.used(I)
        self.eff, self.f, self.obj = I.eff, f, obj
        self.M = Src(obj, True)
        self.eqs = {}

    def cell(self, *path):
        o = self.obj
        for x in path: o = mk("fld", o, x)
        v = self.st.cells.get(o)
        return None if v is None else self.norm(v)

    def norm(self, t):
        for _ in range(4):
            u = subst(t, self.eqs)
            if u is t: break
            t = u
        return t

    def field(self, n):
        v = self.cell(n)
        if v is not None: return v, None
        return self.cell(n, "data"), self.cell(n, "len")

    def array(self, n):
        v, l = self.field(n)
        return v.a[0] if v is not None and v.op == "ptr" and v.a[1] is ZERO else None

    def norms(self, A):
        out = [Norm(e, self.M) for e in writes_to(self.eff, A)]
        for x in out: x.val, x.off = (self.norm(t) if t is not None else None for t in (x.val, x.off))
        return out


def filled(c, o, rule, inst, n, length, want, w):
    """array n of the object has length entries, and want(position) is stored at each"""
    A = o.array(n)
    i = "%s: %s" % (inst, n)
    if A is None:
        v = o.field(n)[0]
        return c.bad(rule, i, w, "is not set") if v is None or v.op == "null" else c.und(rule, i, w, "array not followed")
    l = o.field(n)[1]
    if l is not None: c.req(l is length, rule, i + ": length", w, "has %s entries, not %s" % (show(l), show(length)))
    if want is None: return
    ns = o.norms(A)
    if not ns: return c.bad(rule, i, w, "is never filled")
    for x in ns:
        if x.all(): return c.und(rule, i, x.e.where(), "written under %s" % ", ".join(map(show, x.all())))
        if x.val is None or x.off is None: return c.und(rule, i, x.e.where(), "not followed")
        if x.val is not want(x.off):
            return (c.und if opaque(x.val, ()) else c.bad)(rule, i, x.e.where(), "[%s] = %s, required %s" % (show(x.off), show(x.val), show(want(x.off))))
    ps = pieces(ns)
    if ps is not None: ps = [(o.norm(a), o.norm(b)) for a, b in ps]
    good = ps is not None and together(ps, ZERO, length) or len(ns) == 1 and nested(ns[0], o, length)
    if not good and ps is None and not all(d[0] == "range" for d in ns[0].dims): return c.und(rule, i, ns[0].e.where(), "filled in loops over %s" % ns[0].show())
    c.req(good, rule, i, ns[0].e.where(), "covers %s, required 0 up to %s" % ("; ".join("%s for %s" % (show(a), show(b)) for a, b in ps) if ps else ns[0].show(), show(length)))


def nested(n, o, length):
    """an outer loop over entries or rows with loops of constant length: every position once?"""
    if len(n.dims) < 2: return False
    outer = n.loops[0]
    tot = o.norm(subst(outer.n, n.sub))
    first = n.dims[0][-1]
    rest = n.dims[1:]
    if n.dims[0][0] == "rows" and rest and rest[0][0] == "row" and rest[0][1] is first:
        tot, first, rest = o.norm(o.M.size()), rest[0][2], rest[1:]
    ks = [numval(o.norm(d[1])) if d[0] == "range" else None for d in rest]
    if None in ks: return False
    size = 1
    for k in ks: size *= int(k)
    vs = [d[-1] for d in rest]
    base = scale(first, size)
    got = [numval(sub(subst(n.off, dict(zip(vs, map(num, t)))), base)) for t in itertools.product(*[range(int(k)) for k in ks])]
    return sorted(x if x is not None else -1 for x in got) == list(range(size)) and length is scale(tot, size)


def numbers(c, o, rule, inst, w, wanted):
    for n, v in wanted:
        x = o.cell(n)
        i = "%s: %s" % (inst, n)
        if x is None or x.op == "uninit": c.bad(rule, i, w, "is not set"); continue
        c.req(x is v, rule, i, w, "is %s, not %s" % (show(x), show(v)))


def ends(c, o, rule, inst, w, n, also=None):
    """row ends are the row pointers from the second on"""
    v, l = o.field("browendptr")
    B, _ = o.field("browptr")
    i = inst + ": browendptr"
    if v is None or v.op == "uninit": return c.bad(rule, i, w, "is not set")
    if B is None or B.op != "ptr": return c.und(rule, i, w, "row pointers not followed")
    for k in (1, 3):
        m = {n: num(k)}
        x = subst(v, m)
        want = [mk("ptr", subst(B.a[0], m), add(subst(B.a[1], m), ONE))] + ([also] if also is not None else [])
        c.req(x in want, rule, i + " with %d row%s" % (k, "" if k == 1 else "s"), w, "is %s, not one past the row pointers" % show(x))
    for k in (0, 1, 3) if l is not None else ():
        y = subst(l, {n: num(k)})
        c.req(y is num(k), rule, i + ": length with %d row%s" % (k, "" if k == 1 else "s"), w, "is %s" % show(y))


def holds_array(c, o, rule, inst, w, n, A, length):
    """field n refers to the array A itself, from its start, with the length given"""
    v, l = o.field(n)
    i = "%s: %s" % (inst, n)
    if v is None or v.op == "uninit": return c.bad(rule, i, w, "is not set")
    c.req(v is mk("ptr", A, ZERO), rule, i, w, "is %s, not the start of the %s" % (show(v), show(A)))
    if l is not None and length is not None: c.req(l is length, rule, i + ": length", w, "has %s entries, not %s" % (show(l), show(length)))


def sig(f): return [q["t"].replace("blasted::", "") for q in f["params"]]


def name(f):
    """which constructor this is"""
    return "%s(%s)" % (short(f), ", ".join(q.replace("blasted::", "") for q in sig(f)))


# ------------------------------------------------------------------ construction
def made(c, p, key):
    f = p.funcs[key]
    k, ts = cls_of(f), sig(f)
    base = k.split("<")[0]
    if not ts: return empty(c, p, key)
    if base == "BSRMatrix" and len(ts) == 3: return pattern(c, p, key)
    if len(ts) == 1 and "BSRMatrix<" in ts[0] and not ts[0].startswith(("RawBSR", "CRawBSR")): return copied(c, p, key)
    if "SRMatrixStorage<" in ts[0] or base == "BSRMatrix" and "RawBSRMatrix" in ts[0]: return taken(c, p, key)
    if "ArrayView<" in ts[0]: return gathered(c, p, key)
    if base == "SRMatrixStorage" or base in ("RawBSRMatrix", "CRawBSRMatrix"): return direct(c, p, key)
    return wrapped(c, p, key)


def obj_of(f): return SELF if cls_of(f).split("<")[0] in ("SRMatrixStorage", "RawBSRMatrix", "CRawBSRMatrix") else MAT


def ptr(A, k=ZERO): return ("v", mk("ptr", A, k))


def kind(c, o, p, rule, inst, w, f):
    k = cls_of(f).split("<")[0]
    names = {"BSRMatrix": "CSR" if bsize(f) == 1 else "BSR", "BSRMatrixView": "VIEWBSR", "CSRMatrixView": "VIEWCSR"}
    if k not in names: return
    v = o.st.cells.get(mk("fld", SELF, "_type"))
    want = next((num(x["v"]) for e in p.enums.values() for x in e.get("vals", []) if x["n"] == names[k]), None)
    if v is None or want is None: return
    c.req(v is want, rule, inst + ": storage kind", w, "is %s, not %s" % (show(v), names[k]))


def pattern(c, p, key):
    f = p.funcs[key]
    rule, inst, w, bs = "from-pattern", name(f), at(f), bsize(f)
    o = Made(c, p, f, {0: ("v", N), 1: ptr(COLS), 2: ptr(PTRS)})
    tot = load(PTRS, N)
    for n, ln, want in (("browptr", add(N, ONE), lambda i: load(PTRS, i)), ("bcolind", tot, lambda i: load(COLS, i)), ("vals", scale(tot, bs * bs), None)):
        filled(c, o, rule, inst, n, ln, want, w)
    numbers(c, o, rule, inst, w, [("nbrows", N), ("nnzb", tot), ("nbstored", tot)])
    ends(c, o, rule, inst, w, N)
    diagonal(c, o, rule, inst, w)
    kind(c, o, p, rule, inst, w, f) if f.get("ctor") else None


def diagonal(c, o, rule, inst, w):
    A, B, C = o.array("diagind"), o.array("browptr"), o.array("bcolind")
    i = inst + ": diagind"
    if A is None: return c.bad(rule, i, w, "is not set") if o.field("diagind")[0] is None else c.und(rule, i, w, "array not followed")
    l = o.field("diagind")[1]
    if l is not None: c.req(l is N, rule, i + ": length", w, "has %s entries" % show(l))
    # the copied arrays hold what was given
    def norm(t):
        if B is not None: t = subst_arr(t, B, PTRS)
        if C is not None: t = subst_arr(t, C, COLS)
        return t
    ns = o.norms(A)
    init = [x for x in ns if x.val is num(-1)]
    rest = [x for x in ns if x not in init]
    if not rest: return c.bad(rule, i, w, "is never found")
    for x in rest:
        if len(x.dims) != 2: return c.und(rule, i, x.e.where(), "found in loops over %s" % x.show())
        r = x.dims[0][-1]
        if norm(subst(x.loops[0].n, x.sub)) is not N: return c.bad(rule, i, x.e.where(), "is looked for in %s rows" % show(x.loops[0].n))
        if x.off is not r: return c.bad(rule, i, x.e.where(), "is stored at [%s]" % show(x.off))
        n2 = norm(subst(x.loops[1].n, x.sub))
        if n2 is not sub(load(PTRS, add(r, ONE)), load(PTRS, r)): return c.bad(rule, i, x.e.where(), "is looked for among %s entries" % show(n2))
        e = norm(x.val)
        if e is not add(load(PTRS, r), x.dims[1][-1]): return (c.und if opaque(x.val, ()) else c.bad)(rule, i, x.e.where(), "holds %s" % show(x.val))
        g = [norm(q) for q in x.all()]
        if not any(q is eq(load(COLS, e), r) or q is eq(sub(load(COLS, e), r), ZERO) or q is eq(sub(r, load(COLS, e)), ZERO) for q in g): return c.bad(rule, i, x.e.where(), "taken under %s" % (", ".join(map(show, g)) or "no condition"))
        if len(g) > 1: return c.und(rule, i, x.e.where(), "further conditions")
    c.ok(rule, i, rest[0].e.where())
    j = inst + ": rows without diagonal entry"
    first = min(x.e.seq for x in rest)
    mark = [x for x in init if len(x.dims) == 1 and norm(subst(x.loops[0].n, x.sub)) is N and x.off is x.dims[0][-1] and not x.all()]
    if not mark and not any(e.kind == "fill" and e.base is A for e in o.eff): return c.bad(rule, j, rest[0].e.where(), "diagonal position is left uninitialised")
    if mark and min(x.e.seq for x in mark) > first and not any(L is M for x in mark for L in x.loops for M in rest[0].loops): return c.bad(rule, j, mark[0].e.where(), "positions found are overwritten")
    c.ok(rule, j, rest[0].e.where())


def subst_arr(t, A, B):
    """reads of the array A as reads of B"""
    for _ in range(6):
        m = {x: load(B, x.a[1]) for x in walk(t) if x.op == "load" and x.a[0] is A and not any(y.op == "load" and y.a[0] is A for y in walk(x.a[1]))}
        if not m: return t
        t = subst(t, m)
    return t


def wrapped(c, p, key):
    """n, row pointers, column indices, values, diagonal positions [, block size]"""
    f = p.funcs[key]
    rule, inst, w, bs = "wrapping", name(f), at(f), bsize(f)
    if len(f["params"]) < 5: return c.und(rule, inst, w, "unknown parameters")
    args = {0: ("v", N), 1: ptr(PTRS), 2: ptr(COLS), 3: ptr(VALS), 4: ptr(DIAGS)}
    b = num(bs) if bs else mk("sym", "block size")
    if bs is None: args[5] = ("v", b)
    o = Made(c, p, f, args)
    tot = load(PTRS, N)
    for n, A, ln in (("browptr", PTRS, add(N, ONE)), ("bcolind", COLS, tot), ("vals", VALS, mul(tot, mul(b, b))), ("diagind", DIAGS, N)): holds_array(c, o, rule, inst, w, n, A, ln)
    numbers(c, o, rule, inst, w, [("nbrows", N), ("nnzb", tot), ("nbstored", tot)])
    ends(c, o, rule, inst, w, N)
    kind(c, o, p, rule, inst, w, f)


def direct(c, p, key):
    """row pointers, column indices, values, diagonal positions, row ends, rows, entries, stored entries [, block size]"""
    f = p.funcs[key]
    rule, inst, w = "wrapping", name(f), at(f)
    if len(f["params"]) < 8: return c.und(rule, inst, w, "unknown parameters")
    Z, T_, B = mk("sym", "nonzeros"), mk("sym", "stored"), mk("sym", "block size")
    args = {0: ptr(PTRS), 1: ptr(COLS), 2: ptr(VALS), 3: ptr(DIAGS), 4: ptr(ENDS), 5: ("v", N), 6: ("v", Z), 7: ("v", T_), 8: ("v", B)}
    o = Made(c, p, f, {k: v for k, v in args.items() if k < len(f["params"])}, obj=SELF)
    for n, A, ln in (("browptr", PTRS, add(N, ONE)), ("bcolind", COLS, T_), ("vals", VALS, mul(T_, mul(B, B))), ("diagind", DIAGS, N), ("browendptr", ENDS, N)): holds_array(c, o, rule, inst, w, n, A, ln)
    numbers(c, o, rule, inst, w, [("nbrows", N), ("nnzb", Z), ("nbstored", T_)])


def gathered(c, p, key):
    """five arrays and three numbers"""
    f = p.funcs[key]
    rule, inst, w = "taking-over", name(f), at(f)
    if len(f["params"]) != 8: return c.und(rule, inst, w, "unknown parameters")
    os_ = [mk("obj", x) for x in ("given row pointers", "given column indices", "given values", "given diagonal positions", "given row ends")]
    Z, T_ = mk("sym", "nonzeros"), mk("sym", "stored")
    args = {k: ("lv", x) for k, x in enumerate(os_)}
    args.update({5: ("v", N), 6: ("v", Z), 7: ("v", T_)})
    o = Made(c, p, f, args, obj=SELF)
    for n, A in zip(FIELDS, os_): holds_array(c, o, rule, inst, w, n, mk("deref", mk("fld", A, "data")), mk("sym", mk("fld", A, "len")))
    numbers(c, o, rule, inst, w, [("nbrows", N), ("nnzb", Z), ("nbstored", T_)])


def taken(c, p, key):
    """from a storage object or a raw matrix, whose arrays it then refers to"""
    f = p.funcs[key]
    rule, inst, w = "taking-over", name(f), at(f)
    stor = "SRMatrixStorage<" in sig(f)[0]
    X = Src(OTHER, stor)
    o = Made(c, p, f, {0: ("lv", OTHER)}, obj=obj_of(f))
    bs = bsize(f) or 1
    q = lambda x: mk("sym", mk("fld", OTHER, x))
    ln = lambda x: mk("sym", mk("fld", mk("fld", OTHER, x), "len")) if stor else None
    lens = {n: ln(n) for n in FIELDS} if stor else {"browptr": add(q("nbrows"), ONE), "bcolind": q("nbstored"), "vals": scale(q("nbstored"), bs * bs), "diagind": q("nbrows"), "browendptr": None}
    arrs = dict(zip(FIELDS, (X.ptr, X.col, X.val, X.diag, X.end)))
    for n in FIELDS:
        if n == "browendptr" and not stor: ends(c, o, rule, inst, w, q("nbrows"), mk("ptr", X.end, ZERO)); continue
        holds_array(c, o, rule, inst, w, n, arrs[n], lens[n])
    numbers(c, o, rule, inst, w, [(x, q(x)) for x in ("nbrows", "nnzb", "nbstored")])
    kind(c, o, p, rule, inst, w, f)


def empty(c, p, key):
    f = p.funcs[key]
    rule, inst, w = "empty", name(f), at(f)
    o = Made(c, p, f, {}, obj=obj_of(f))
    numbers(c, o, rule, inst, w, [(x, ZERO) for x in ("nbrows", "nnzb", "nbstored")])
    for n in FIELDS:
        v, l = o.field(n)
        i = "%s: %s" % (inst, n)
        if v is None or v.op == "uninit": c.bad(rule, i, w, "is not set"); continue
        c.req(v.op == "null", rule, i, w, "is %s" % show(v))
        if l is not None: c.req(l is ZERO, rule, i + ": length", w, "is %s" % show(l))
    kind(c, o, p, rule, inst, w, f)


def copied(c, p, key):
    f = p.funcs[key]
    rule, inst, w, bs = "copying", name(f), at(f), bsize(f)
    X = Src(mk("fld", OTHER, "mat"), True)
    o = Made(c, p, f, {0: ("lv", OTHER)})
    q = lambda x: mk("sym", mk("fld", X.obj, x))
    ln = lambda x: mk("sym", mk("fld", mk("fld", X.obj, x), "len"))
    # a matrix that describes itself consistently
    tot = X.size()
    o.eqs = {ln("browptr"): add(X.n, ONE), ln("bcolind"): tot, ln("vals"): scale(tot, bs * bs), ln("diagind"): X.n, ln("browendptr"): X.n, q("nnzb"): tot, q("nbstored"): tot}
    B = o.array("browptr")
    if B is not None: o.eqs[load(B, X.n)] = tot
    for n, l, src in (("browptr", add(X.n, ONE), X.ptr), ("bcolind", tot, X.col), ("vals", scale(tot, bs * bs), X.val), ("diagind", X.n, X.diag)):
        A = o.array(n)
        if A is src: c.bad(rule, "%s: %s" % (inst, n), w, "is shared with the original"); continue
        filled(c, o, rule, inst, n, l, lambda i, s=src: load(s, i), w)
    numbers(c, o, rule, inst, w, [("nbrows", X.n), ("nnzb", tot), ("nbstored", tot)])
    ends(c, o, rule, inst, w, X.n)
    kind(c, o, p, rule, inst, w, f)


# ------------------------------------------------------------------ assembly
ASSEMBLY = ("setAllZero", "setDiagZero", "submitBlock", "updateBlock", "updateDiagBlock", "scaleAll")


def idiv(a, b): return a if b == 1 else mk("call", "idiv", a, num(b))


def assembly(c, p, key):
    f = p.funcs[key]
    rule, inst, w, bs = "assembly", short(f), at(f), bsize(f)
    n = f["n"]
    F = mk("sym", "factor")
    args = {"scaleAll": {0: ("v", F)}, "updateDiagBlock": {0: ("v", S), 1: ptr(BUF), 2: ("v", BI)}}.get(n, {0: ("v", S), 1: ("v", J), 2: ptr(BUF), 3: ("v", BI), 4: ("v", BJ)})
    if n in ("setAllZero", "setDiagZero"): args = {}
    o = Made(c, p, f, args)
    M = o.M
    tot = M.size()
    o.eqs = {mk("sym", mk("fld", MAT, x)): tot for x in ("nnzb", "nbstored")}
    o.eqs[mk("sym", mk("fld", mk("fld", MAT, "vals"), "len"))] = scale(tot, bs * bs)
    ns = o.norms(M.val)
    other = [e for e in o.eff if e.kind == "store" and isinstance(e.base, T) and e.base in (M.ptr, M.col, M.diag, M.end)]
    if other: c.bad(rule, inst + ": pattern unchanged", other[0].where(), "writes to %s" % show(other[0].base))
    if not ns: return c.bad(rule, inst, w, "no value is written")
    if len(ns) != 1: return c.und(rule, inst, w, "%d writes" % len(ns))
    x = ns[0]
    wx = x.e.where()
    old = load(M.val, x.off)
    if n in ("setAllZero", "scaleAll"):
        want = ZERO if n == "setAllZero" else mul(F, old)
        c.req(x.val is want, rule, inst + ": value", wx, "[%s] = %s" % (show(x.off), show(x.val)))
        if x.all(): return c.und(rule, inst + ": every entry", wx, "under conditions")
        ps = pieces(ns)
        if ps is not None: ps = [(o.norm(a), o.norm(b)) for a, b in ps]
        full = ps is not None and together(ps, ZERO, scale(tot, bs * bs)) or len(x.dims) > 1 and nested(x, o, scale(tot, bs * bs))
        if not full and ps is None and not all(d[0] in ("range", "all", "rows") for d in x.dims): return c.und(rule, inst + ": every entry", wx, "over %s" % x.show())
        return c.req(full, rule, inst + ": every entry", wx, "over %s, [%s]" % (x.show(), show(x.off)))
    if n == "setDiagZero":
        c.req(x.val is ZERO, rule, inst + ": value", wx, show(x.val))
        return c.req(within(x, lambda r: M.D(r), bs * bs, "rows", M) and not x.all(), rule, inst + ": diagonal blocks", wx, "[%s] over %s" % (show(x.off), x.show()))
    add_ = n != "submitBlock"
    put = x.val
    if add_:
        put = sub(x.val, old)
        if mentions(put, M.val) or put is x.val: return c.bad(rule, inst + ": adds to the stored value", wx, "[%s] = %s" % (show(x.off), show(x.val)))
    if put.op != "load" or put.a[0] is not BUF: return (c.und if opaque(put, ()) else c.bad)(rule, inst + ": value", wx, "puts %s" % show(put))
    at_ = put.a[1]
    if bs > 1:
        R, Cc = idiv(S, bs), idiv(J, bs)
        if n == "updateDiagBlock":
            good = len(x.dims) == 1 and x.dims[0][0] == "range" and x.dims[0][1] is num(bs * bs) and not x.all() and spans(x, [x.dims[0][-1]], scale(M.D(R), bs * bs), at_, bs)
            return c.req(good, rule, inst + ": every value of the diagonal block", wx, "[%s] from [%s] over %s" % (show(x.off), show(at_), x.show()))
        if not x.dims or x.dims[0][0] != "row": return c.und(rule, inst, wx, "over %s" % x.show())
        c.req(x.dims[0][1] is R, rule, inst + ": row", wx, "looks in row %s" % show(x.dims[0][1]))
        e = x.dims[0][2]
        g = x.all()
        want = [eq(M.C(e), Cc), eq(sub(M.C(e), Cc), ZERO), eq(sub(Cc, M.C(e)), ZERO)]
        c.req(len(g) >= 1 and any(q in want for q in g), rule, inst + ": column", wx, "under %s" % (", ".join(map(show, g)) or "no condition"))
        more = [q for q in g if q not in want]
        if more: return c.und(rule, inst + ": further conditions", wx, ", ".join(map(show, more)))
        return c.req(spans(x, x.vars()[1:], scale(e, bs * bs), at_, bs), rule, inst + ": every value of the block", wx, "[%s] from [%s] over %s" % (show(x.off), show(at_), x.show()))
    # scalar rows: rows i .. i+bi, columns j .. j+bj
    if n == "updateDiagBlock":
        if len(x.dims) != 2 or any(d[0] != "range" for d in x.dims): return c.und(rule, inst, wx, "over %s" % x.show())
        a, b = x.vars()
        r, m = a, b
        # columns of a row of the block are next to each other: position of column k is D(i + r) + k - r
        good = x.dims[0][1] is BI and x.dims[1][1] is BI and not x.all() and x.off is sub(add(M.D(add(S, r)), m), r) and at_ is add(mul(BI, r), m)
        return c.req(good, rule, inst + ": every value of the diagonal block", wx, "[%s] from [%s] over %s" % (show(x.off), show(at_), x.show()))
    if [d[0] for d in x.dims] != ["range", "row"]: return c.und(rule, inst, wx, "over %s" % x.show())
    r, e = x.vars()
    c.req(x.dims[0][1] is BI, rule, inst + ": every row of the block", wx, "takes %s rows" % show(x.dims[0][1]))
    c.req(x.dims[1][1] is add(S, r), rule, inst + ": row", wx, "looks in row %s" % show(x.dims[1][1]))
    c.req(x.off is e, rule, inst + ": position", wx, "writes to [%s]" % show(x.off))
    col = M.C(e)
    ranks = [t for t in walk(mk("both", at_, *x.all())) if t.op == "sum"]
    for t in ranks:
        tau = t.a[1]
        cnt = load(M.col, add(tau, M.P(add(S, r))))
        below = lt0(sub(cnt, J))
        okay = t.a[0] is sub(e, M.P(add(S, r))) and t.a[2] in (ite(below, ZERO, ONE), ite(not_(below), ONE, ZERO))
        if not okay:
            return (c.und if opaque(t, ()) else c.bad)(rule, inst + ": place in the block", wx, "counts %s" % show(t))
    # for a row that is sorted and has every column of the block, as many earlier entries reach the block as the column is after its first
    rel = sub(col, J)
    g = [subst(q, {t: rel for t in ranks}) for q in x.all()]
    at2 = subst(at_, {t: rel for t in ranks})
    c.req(at2 is add(mul(BJ, r), rel), rule, inst + ": value of its own row and column", wx, "takes [%s] for column %s" % (show(at2), show(col)))
    wrong = unsure = None
    for b in (1, 2, 3):
        for d in range(-2, b + 1):
            v = holds(g, {col: num(10 + d), J: num(10), BJ: num(b)})
            if v is None: unsure = d
            elif v != (0 <= d < b): wrong = "%s for a block of %d columns from 10 at column %d" % ("written" if v else "not written", b, 10 + d)
    if wrong: return c.bad(rule, inst + ": columns of the block", wx, wrong)
    if unsure is not None: return c.und(rule, inst + ": columns of the block", wx, "conditions not decided: %s" % ", ".join(map(show, g)))
    c.ok(rule, inst + ": columns of the block", wx)


def spans(x, vs, base, src, bs):
    """do the constant loops over vs write base + k from k for every k below bs*bs?"""
    ks = [numval(d[1]) for d in x.dims if d[0] == "range" and d[-1] in vs]
    if None in ks or len(ks) != len(vs): return False
    got = []
    for t in itertools.product(*[range(int(k)) for k in ks]):
        m = dict(zip(vs, map(num, t)))
        a, b = numval(sub(subst(x.off, m), base)), numval(subst(src, m))
        if a is None or a != b: return False
        got.append(a)
    return sorted(got) == list(range(bs * bs))


def within(x, pos, size, first, M):
    """one visit of every value of the blocks at pos(row), for every row?"""
    if not x.dims or x.dims[0][0] != first: return False
    r = x.dims[0][-1]
    if size == 1 and len(x.dims) == 1: return x.off is pos(r)
    ks = [numval(d[1]) if d[0] == "range" else None for d in x.dims[1:]]
    if None in ks: return False
    vs = x.vars()[1:]
    got = [numval(sub(subst(x.off, dict(zip(vs, map(num, t)))), scale(pos(r), size))) for t in itertools.product(*[range(int(k)) for k in ks])]
    return None not in got and sorted(got) == list(range(size))


# ------------------------------------------------------------------ what it says of itself
def described(c, p, key):
    f = p.funcs[key]
    rule, inst, w, bs = "description", short(f), at(f), bsize(f)
    o = Made(c, p, f)
    if f["n"] == "dim": return c.req(o.ret is scale(mk("sym", mk("fld", MAT, "nbrows")), bs), rule, inst, w, "is %s" % show(o.ret))
    c.req(o.ret is not None and o.ret.op in ("lv", "rec") and o.ret.a[0] is MAT, rule, inst, w, "is %s" % (show(o.ret) if o.ret is not None else "nothing"))


def handed(c, p, key):
    """the matrix an ordering is computed from is this one"""
    f = p.funcs[key]
    rule, inst, w = "description", short(f), at(f)
    o = Made(c, p, f, {0: ("lv", OTHER)}, noinline=("compute",))
    cs = [e for e in o.eff if e.kind == "call" and (e.name or "").split("::")[-1] == "compute"]
    if len(cs) != 1: return c.und(rule, inst, w, "%d computations" % len(cs))
    a = next((x for x in cs[0].args if x is not None and x.op in ("rec", "lv", "ptr") and x.a[0] is not OTHER), None)
    if a is None: return c.und(rule, inst, w, "matrix not followed")
    viewed(c, o, rule, inst, cs[0].where(), a.a[0], MAT)


def viewed(c, o, rule, inst, w, X, owner):
    M = Src(owner, True)
    for n, A in zip(FIELDS, (M.ptr, M.col, M.val, M.diag, M.end)):
        v = o.st.cells.get(mk("fld", X, n))
        if v is None: c.und(rule, "%s: %s" % (inst, n), w, "not followed"); continue
        c.req(v is mk("ptr", A, ZERO), rule, "%s: %s" % (inst, n), w, "is %s" % show(v))
    for n in ("nbrows", "nnzb", "nbstored"):
        v = o.st.cells.get(mk("fld", X, n))
        if v is None: c.und(rule, "%s: %s" % (inst, n), w, "not followed"); continue
        c.req(v is mk("sym", mk("fld", owner, n)), rule, "%s: %s" % (inst, n), w, "is %s" % show(v))


# ------------------------------------------------------------------ comparison
def compared(c, p, key):
    f = p.funcs[key]
    rule, inst, w, bs = "comparison", short(f), at(f), bsize(f)
    TOL = mk("sym", "tolerance")
    o = Made(c, p, f, {0: ("lv", OTHER), 1: ("v", TOL)})
    A, B = Src(MAT, True), Src(mk("fld", OTHER, "mat"), True)
    same = {B.n: A.n, B.size(): A.size()}
    regs = {}
    for e in o.eff:
        if e.kind == "store" and e.base.op == "region" and e.val in (ZERO, ONE, FALSE, TRUE): regs.setdefault(e.base, []).append(e)
    if len(regs) != 1: return c.und(rule, inst, w, "answers not followed")
    ws = [Norm(e, A) for e in list(regs.values())[0]]
    init = [x for x in ws if x.val in (ONE, TRUE)]
    ps = pieces(init)
    c.req(together(ps, ZERO, num(5)) and all(not x.all() for x in init), rule, inst + ": starts as equal", w, "answers set: %s" % ", ".join("%s" % show(x.off) for x in init))
    neg_ = [x for x in ws if x not in init]
    if init and neg_: c.req(max(x.e.seq for x in init) < min(x.e.seq for x in neg_), rule, inst + ": answers are kept", w, "answers are set to true after they were found false")
    seen = {k: [] for k in range(5)}
    for x in neg_:
        k = numval(x.off)
        if k is None or k not in seen: c.und(rule, inst, x.e.where(), "answer [%s]" % show(x.off)); continue
        k = int(k)
        g = x.all()
        d = [y[0] for y in x.dims]
        vs = x.vars()
        got = None
        if not d:
            if any(q is not_(eq(A.n, B.n)) for q in g): got = "rows"
            elif any(q is not_(eq(A.size(), B.P(B.n))) or q is not_(eq(A.size(), B.P(A.n))) for q in g): got = "total"
        elif d == ["rows"]:
            r = vs[0]
            for nm, a, b in (("pointers", A.P, B.P), ("diagonal", A.D, B.D)):
                if any(q is not_(eq(a(r), b(r))) for q in g): got = nm
        elif d[0] == "all":
            e = vs[0]
            if d == ["all"] and any(q is not_(eq(A.C(e), B.C(e))) for q in g): got = "columns"
            else:
                t = [q for q in g if any(y is TOL for y in walk(q))]
                if len(t) == 1 and all(y[0] == "range" for y in x.dims[1:]):
                    lv = {y.a[1] for y in walk(t[0]) if y.op == "load"}
                    if len(lv) == 1:
                        off = lv.pop()
                        ks = [numval(y[1]) for y in x.dims[1:]]
                        diff = sub(load(A.val, off), load(B.val, off))
                        forms = [lt0(sub(TOL, mk("call", nm, dd)), True) if False else None for nm in ("abs",) for dd in (diff, neg(diff))]
                        dec = [truthval(t[0], TOL, load(A.val, off), load(B.val, off), q) for q in ((0.5, 3, 1), (0.5, 1, 3), (0.5, 1, 1), (4, 3, 1), (4, 1, 3))]
                        if None not in ks:
                            cover = sorted(numval(sub(subst(off, dict(zip(vs[1:], map(num, tt)))), scale(e, bs * bs))) for tt in itertools.product(*[range(int(z)) for z in ks])) == list(range(bs * bs))
                            if cover and dec == [True, True, False, False, False]: got = "values"
                            elif None in dec: got = None
        if got is None: c.und(rule, "%s: answer %d" % (inst, k), x.e.where(), "under %s in loops over %s" % (", ".join(map(show, g)), x.show())); continue
        want = {"rows": 0, "total": 1, "pointers": 1, "columns": 2, "values": 3, "diagonal": 4}[got]
        if k != want: c.bad(rule, "%s: answer %d" % (inst, k), x.e.where(), "is made false by a difference of %s" % got)
        seen[k].append(got)
    need = {0: {"rows"}, 1: {"total", "pointers"}, 2: {"columns"}, 3: {"values"}, 4: {"diagonal"}}
    for k in range(5):
        c.req(need[k] <= set(seen[k]), rule, "%s: answer %d" % (inst, k), w, "does not depend on the %s" % ", ".join(sorted(need[k] - set(seen[k]))))
    # before anything that is longer for the other matrix is read, the sizes are known to agree
    rs = [e for e in o.eff if e.kind == "call"]
    r = o.ret
    c.req(r is not None and any(y is list(regs)[0] for y in walk(r)), rule, inst + ": returned", w, "returns %s" % (show(r) if r is not None else "nothing"))


def truthval(q, TOL, a, b, v):
    """truth of a comparison of |a - b| with the tolerance"""
    t, x, y = v
    m = {TOL: num(t), a: num(x), b: num(y)}
    u = subst(q, m)
    for z in list(walk(u)):
        if z.op == "call" and z.a[0] in ("abs", "fabs") and numval(z.a[1]) is not None: u = subst(u, {z: num(abs(numval(z.a[1])))})
    u = tocond(u)
    if u.op == "ltf" or u.op == "lt0":
        n = numval(u.a[0])
        return None if n is None else n < 0
    if u.op == "not" and u.a[0].op in ("ltf", "lt0"):
        n = numval(u.a[0].a[0])
        return None if n is None else not n < 0
    return True if u is TRUE else False if u is FALSE else None


# ------------------------------------------------------------------ figures about the diagonal
QUERIES = ("getDiagonalAbsSum", "getAbsMaxDiagonalEntry", "getAbsMinDiagonalEntry", "getNumZeroDiagonals", "getDiagonalProduct", "zeroDiagonalRow")


def query(c, p, key):
    f = p.funcs[key]
    rule, inst, w = "description", short(f), at(f)
    o = Made(c, p, f)
    M = o.M
    v = mk("sym", "row")
    d = load(M.val, M.D(v))
    ab = mk("call", "abs", d)
    t = o.ret
    n = f["n"]
    if t is None: return c.und(rule, inst, w, "no value")
    if n == "getDiagonalAbsSum": return say(c, t is sum_(v, M.n, ab), t, rule, inst, w)
    if n in ("getAbsMaxDiagonalEntry", "getAbsMinDiagonalEntry"):
        k = "max" if "Max" in n else "min"
        good = t.op == "call" and t.a[0] == k + "over" and t.a[2] is sum_(v, M.n, mk("call", k + "1", ab))
        good = good and (t.a[1] is ZERO if k == "max" else "infinity" in show(t.a[1]) or "max" in show(t.a[1]))
        if not good and t.op == "call" and t.a[0] in ("maxover", "minover") and not any(x.op == "opq" for x in walk(t.a[2])): return c.bad(rule, inst, w, "is %s" % show(t))
        return say(c, good, t, rule, inst, w)
    if n == "getNumZeroDiagonals":
        if t.op not in ("sum", "poly"): return c.und(rule, inst, w, "is %s" % show(t))
        s = [x for x in walk(t) if x.op == "sum"]
        if len(s) != 1 or s[0] is not t and items(t) != items(s[0]): return say(c, False, t, rule, inst, w)
        body = subst(s[0].a[2], {s[0].a[1]: v})
        good = s[0].a[0] is M.n and body.op == "ite" and small(body, ab)
        return say(c, good, t, rule, inst, w)
    if n == "zeroDiagonalRow":
        hits = [e for e in o.eff if e.kind == "set" and loops(e) and len(loops(e)) == 1 and any(x.op == "load" and x.a[0] is M.val for q in [y.c for y in e.ctx if isinstance(y, If)] + [q for q, k in e.live] for x in walk(q)) and e.val is loops(e)[0].T]
        good = len(hits) == 1 and loops(hits[0])[0].n is M.n
        return c.ok(rule, inst, hits[0].where()) if good else c.und(rule, inst, w, "search not followed")
    if n == "getDiagonalProduct":
        sets = [e for e in o.eff if e.kind == "set" and loops(e) and isinstance(e.val, T) and any(x.op == "load" and x.a[0] is M.val for x in walk(e.val))]
        if len(sets) != 1: return c.und(rule, inst, w, "product not followed")
        e = sets[0]
        L = loops(e)[0]
        h = [x for x in walk(e.val) if x in o.I.heads]
        if len(h) != 1: return c.und(rule, inst, w, "product not followed")
        good = L.n is M.n and e.val is mul(h[0], load(M.val, M.D(L.T))) and o.I.heads[h[0]] is ONE
        return c.req(good, rule, inst, e.where(), "multiplies %s by %s" % (show(o.I.heads[h[0]]), show(e.val)))


def small(body, ab):
    """one if |diagonal| is below something else, otherwise zero"""
    q, a, b = body.a
    if a is ZERO: q, a, b = not_(q), b, a
    if a is not ONE or b is not ZERO or q.op not in ("ltf", "lt0"): return False
    return any(k > 0 and len(s) == 1 and s[0][0] is ab for k, s, m in items(q.a[0])) and not any(x.op == "load" for k, s, m in items(q.a[0]) for y in s if y[0] is not ab for x in walk(y[0]))


def say(c, good, t, rule, inst, w):
    if good: return c.ok(rule, inst, w)
    (c.und if opaque(t, ()) else c.bad)(rule, inst, w, "is %s" % show(t))


if __name__ == "__main__":
    main(check, "P15", "Every constructor of every matrix class, and every assembly function, is abstractly executed: the fields of the resulting object (arrays with their lengths, numbers of rows and entries, row ends, diagonal positions) and the positions and values written are compared "
         "with what the pattern, the arrays, the other matrix or the block given define, for every matrix, block size and position.",
         ["the row pointers given end with the number of entries", "scalar assembly of a block: columns of a row are sorted and every column of the block is present (documented)", "copies are made of matrices that have been set up"])
