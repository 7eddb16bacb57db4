"""Conversions and copies of matrices keep every entry, for every matrix, block size and storage order."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from rel import *
from model import *

MO, COO = mk("obj", "mat"), mk("obj", "coo")
SORTS = ("std::sort", "std::stable_sort")
FIELDS = ("browptr", "bcolind", "vals", "diagind", "browendptr")


def check(c, p):
    jobs = [(reading,), (coo_to_csr,), (columns_based_one,), (shared,), (moved,), (raw_view,)]
    for f in fns(p, "convertToBSR"): jobs.append((coo_to_bsr, f["key"]))
    for f in fns(p, "convert_BSR_to_BSC"): jobs.append((columns, f["key"]))
    for f in fns(p, "copyRawBSRMatrix"): jobs.append((copied, f["key"]))
    for f in fns(p, "getLowerTriangularView"): jobs.append((part, f["key"], "lower"))
    for f in fns(p, "getUpperTriangularView"): jobs.append((part, f["key"], "upper"))
    c.par(p, jobs)
    for r, n in (("reading", 4), ("coordinate-to-rows", 6), ("coordinate-to-blocks", 6), ("rows-to-columns", 6), ("copies", 6)): c.need(r, n)


def fns(p, name):
    fs = [f for f in p.funcs.values() if f["n"] == name and "body" in f]
    if not fs: raise AnalysisBroken("no function %s" % name)
    return fs


def at(f): return "%s:%s" % (f["file"], f["line"])
def short(f): return f["key"].split("|")[0].strip().replace("blasted::", "").replace("Eigen::", "")


class Coo(Src):
    """the entries of a coordinate matrix, sorted by row, with row pointers"""

    def __init__(self, obj=COO):
        self.obj = obj
        self.ptr = mk("region", mk("fld", obj, "rowptr"))
        self.ents = mk("region", mk("fld", obj, "entries"))
        self.col = self.diag = self.end = self.val = mk("none")
        self.n = mk("sym", mk("fld", obj, "nrows"))
        self.nnz = mk("sym", mk("fld", obj, "nnz"))
        self.alls = (self.nnz,)

    def f(self, e, n): return mk("sym", mk("fld", mk("elem", self.ents, e), n))


def pieces(ns):
    """the runs [start, start + length) of an array that single loops write to, or None"""
    out = []
    for n in ns:
        if not n.dims: out.append((n.off, ONE)); continue
        if len(n.dims) != 1: return None
        v = n.dims[0][-1]
        lo = sub(n.off, v)
        L = n.loops[0]
        if mentions(lo, v):
            return None
        out.append((lo, subst(L.n, n.sub)))
    return out


def together(ps, start, length):
    """do the runs make up [start, start + length), each part once?"""
    if ps is None: return False
    ps = list(ps)
    at_ = start
    while ps:
        nxt = next((q for q in ps if q[0] is at_), None)
        if nxt is None: return False
        ps.remove(nxt)
        at_ = add(at_, nxt[1])
    return at_ is add(start, length)


class Out:
    """the matrix a function makes"""

    def __init__(self, c, p, f, args=None, this=None, M=None, noinline=(), models={}):
        I = self.I = Interp(p, budget=900000)
        st = self.st = State()
        I.noinline = {g["q"] for g in p.funcs.values() if g["n"] in noinline}
        I.models["std::make_pair"] = I.models["make_pair"] = lambda I, st, vs, line: mk("call", "pair", vs[0], vs[1])
        for k, v in models.items(): I.models[k] = v
        if isinstance(M, Coo):      # what reading establishes
            I.preset[mk("fld", M.ptr, "$size")] = add(M.n, ONE)
            I.preset[mk("fld", M.ents, "$size")] = M.nnz
        self.ret = I.run(f, args=args or {}, this=this, cls=f.get("cls"), st=st)
        c.used(I)
        self.eff, self.M, self.f = unsearched(I), M, f
        self.obj = self.ret.a[0] if self.ret is not None and self.ret.op in ("rec", "lv") else None

    def cell(self, *path):
        o = self.obj
        for x in path: o = mk("fld", o, x)
        return self.st.cells.get(o)

    def field(self, n):
        """(array or pointer, its length if known) held in field n of the result"""
        v = self.cell(n)
        if v is not None: return v, None
        v = self.cell(n, "data")
        return v, self.cell(n, "len")

    def array(self, n):
        v, l = self.field(n)
        if v is None: return None
        while v.op == "ite": v = v.a[1] if v.a[1].op == "ptr" else v.a[2]
        return v.a[0] if v.op == "ptr" and v.a[1] is ZERO else None

    def norms(self, A): return [Norm(e, self.M) for e in writes_to(self.eff, A)]

    def free(self, n):
        """conditions of a write other than that nothing was thrown"""
        return n.all()


def filled(c, o, rule, inst, n, length, want, w):
    """array n of the result holds want(position) at every position below length, and nothing is written to it besides"""
    A = o.array(n)
    i = "%s: %s" % (inst, n)
    if A is None: return c.und(rule, i, w, "array not followed")
    v, l = o.field(n)
    if l is not None: c.req(l is length, rule, i + ": length", w, "has %s entries, not %s" % (show(l), show(length)))
    ns = o.norms(A)
    if not ns:
        if [e for e in o.eff if e.kind == "call" and any(a is not None and a.op == "ptr" and a.a[0] is A for a in e.args)]: return c.und(rule, i, w, "handed to another function")
        return c.bad(rule, i, w, "is never filled")
    for x in ns:
        if o.free(x): return c.und(rule, i, x.e.where(), "written under conditions")
        if x.val is None or x.off is None: return c.und(rule, i, x.e.where(), "not followed")
    flat_ = [want(x.off) for x in ns]
    for x, y in zip(ns, flat_):
        if x.val is not y:
            (c.und if opaque(x.val, ()) else c.bad)(rule, i, x.e.where(), "[%s] = %s, required %s" % (show(x.off), show(x.val), show(y)))
            return
    ps = pieces(ns)
    if ps is None:
        # an entry-wise nest
        if len(ns) == 1 and whole_nest(ns[0], o, length): return c.ok(rule, i, ns[0].e.where())
        return c.und(rule, i, ns[0].e.where(), "written in loops over %s" % ns[0].show())
    c.req(together(ps, ZERO, length), rule, i, ns[0].e.where(), "covers %s, required 0 up to %s" % ("; ".join("%s for %s" % (show(a), show(b)) for a, b in ps), show(length)))


def whole_nest(n, o, length):
    """a nest that visits every position below length once: rows and their entries, possibly with the values of a block"""
    M = o.M
    d = [x[0] for x in n.dims]
    if d[:2] == ["rows", "row"] and n.dims[1][1] is n.dims[0][1]: e, rest = n.dims[1][2], n.dims[2:]
    elif d[:1] == ["all"]: e, rest = n.dims[0][1], n.dims[1:]
    elif d[:1] == ["range"]: e, rest = n.dims[0][2], n.dims[1:]
    else: return False
    tot = n.loops[0].n if d[0] == "range" else M.size()
    if not rest: return n.off is e and length is tot
    # one or two inner loops of constant length
    ks = [numval(x[1]) for x in rest if x[0] == "range"]
    if len(ks) != len(rest) or None in ks: return False
    size = 1
    for k in ks: size *= int(k)
    if length is not scale(tot, size): return False
    base = scale(e, size)
    vs = [x[2] for x in rest]
    got = {numval(sub(subst(n.off, dict(zip(vs, map(num, t)))), base)) for t in itertools.product(*[range(int(k)) for k in ks])}
    return got == set(range(size))


def numbers(c, o, rule, inst, w, wanted):
    for n, v in wanted:
        x = o.cell(n)
        i = "%s: %s" % (inst, n)
        if x is None: c.und(rule, i, w, "not followed"); continue
        c.req(x in v if isinstance(v, (list, tuple)) else x is v, rule, i, w, "is %s" % show(x))


def ends(c, o, rule, inst, w, n):
    """row ends: one past the start of every row"""
    v, l = o.field("browendptr")
    A = o.array("browptr")
    i = inst + ": browendptr"
    if v is None or A is None: return c.und(rule, i, w, "not followed")
    for k in (1, 3):
        x = subst(v, {n: num(k)})
        y = subst(A, {n: num(k)})
        c.req(x is mk("ptr", y, ONE), rule, i + " with %d row%s" % (k, "" if k == 1 else "s"), w, "is %s" % show(x))
        if l is not None:
            z = subst(l, {n: num(k)})
            c.req(z is num(k), rule, i + ": length with %d row%s" % (k, "" if k == 1 else "s"), w, "is %s" % show(z))


# ------------------------------------------------------------------ comparators
def order(p, I, lam):
    """what a comparison of two records orders them by: the list of fields, most significant first, or None"""
    if lam is None or lam.op != "lambda": return None
    le, fr = I.lam[lam]
    if len(le["params"]) != 2: return None
    f = {"key": le["key"], "q": "lambda", "short": "lambda", "params": le["params"], "body": le["body"], "line": le["line"], "file": fr.f["file"], "rtc": "v", "ret": "?", "n": "lambda"}
    A, B = mk("obj", "left"), mk("obj", "right")
    J = Interp(p)
    try: r = J.run(f, args={0: ("lv", A), 1: ("lv", B)} if le["params"][0]["tc"] == "ref" else {0: ("v", mk("rec", A)), 1: ("v", mk("rec", B))}, st=State())
    except Exception: return None
    if r is None: return None
    r = tocond(r)
    names = {}
    for x in walk(r):
        if x.op == "sym" and isinstance(x.a[0], T) and x.a[0].op == "fld": names.setdefault(x.a[0].a[1], {})[which(x, le["params"])] = x
        elif x.op == "fld": pass
    fs = [n for n in names if None not in names[n]]
    if not fs or len(fs) > 2: return None
    for k in range(len(fs)):
        for perm in itertools.permutations(fs, k + 1):
            good = True
            for vs in itertools.product(range(2), repeat=2 * len(fs)):
                m = {}
                for q, n in enumerate(fs):
                    for s in (0, 1):
                        if s in names[n]: m[names[n][s]] = num(vs[2 * q + s])
                val = {n: (vs[2 * q], vs[2 * q + 1]) for q, n in enumerate(fs)}
                want = [val[n][0] for n in perm] < [val[n][1] for n in perm]
                t = truth(r, m)
                if t is None: return None
                if t != want: good = False; break
            if good: return list(perm)
    return ["nothing"]


def which(x, ps):
    """does a field belong to the left (0) or the right (1) of the records compared?"""
    y = x
    while isinstance(y, T) and y.op in ("sym", "fld", "elem"): y = y.a[0]
    s = show(y)
    for k, n in ((0, "left"), (1, "right")):
        if s == n or s.split("#")[0] == ps[k]["n"]: return k
    return None


# ------------------------------------------------------------------ reading
def reading(c, p):
    for f in fns(p, "readMatrixMarket"):
        I = Interp(p, budget=900000)
        st = State()
        I.streams = True
        I.run(f, this=COO, cls=f.get("cls"), st=st)
        c.used(I)
        w = at(f)
        M = Coo()
        val = {}
        for e in I.eff:
            if e.kind == "set" and not loops(e) and e.base.op == "fld" and e.base.a[0] is COO: val[e.base.a[1]] = e.val
        n, nnz = val.get("nrows"), val.get("nnz")
        if n is None or nnz is None: c.und("reading", "sizes", w, "not followed"); continue
        M.n, M.nnz, M.alls = n, nnz, (nnz,)
        ent = [e for e in I.eff if e.kind in ("set", "store") and isinstance(e.base, T) and e.base.op == "fld" and e.base.a[1] in ("rowind", "colind", "value")]
        lastset = max([e.seq for e in ent] or [0])
        # row pointers
        ws = [Norm(e, M) for e in writes_to(I.eff, M.ptr)]
        alloc = [e for e in I.eff if e.kind == "alloc" and e.base is M.ptr]
        zero = [e for e in I.eff if e.kind == "fill" and e.base is M.ptr and e.val is ZERO]
        size = st.cells.get(mk("fld", M.ptr, "$size"))
        c.req(size is add(n, ONE), "reading", "row pointers: length", w, "is %s" % (show(size) if size is not None else "unknown"))
        count = [x for x in ws if len(x.dims) == 1 and x.dims[0][0] == "all" and x.val is add(load(M.ptr, x.off), ONE)]
        run = [x for x in ws if x not in count]
        if not count or any(x.off.op not in ("sym", "poly") for x in count): c.und("reading", "row pointers", w, "not computed by counting")
        else:
            x = count[0]
            e = x.dims[0][1]
            good = len(count) == 1 and x.off is add(M.f(e, "rowind"), ONE) and not x.guards
            c.req(good, "reading", "row pointers: entries of every row are counted", x.e.where(), "counts into [%s]" % show(x.off))
            c.req(any(z.seq < x.e.seq for z in zero) and lastset < x.e.seq, "reading", "row pointers: start at zero", x.e.where(), "not set to zero before")
            sc = scans(I.eff, M.ptr)
            if not run and len(sc) == 1: c.req(sc[0].seq > x.e.seq and not loops(sc[0]), "reading", "row pointers: running sum", sc[0].where(), "before the entries are counted")
            elif len(run) != 1 or len(run[0].dims) != 1: c.und("reading", "row pointers: running sum", w, "%d other writes" % len(run))
            else:
                y = run[0]
                v = y.dims[0][-1]
                L = y.loops[0]
                okay = y.off is add(v, ONE) and y.val is add(load(M.ptr, add(v, ONE)), load(M.ptr, v)) and subst(L.n, y.sub) is n and L.dir > 0 and y.e.seq > x.e.seq
                okay = okay or runningsum(I, y.e, L, add(n, ONE)) == "" and y.e.seq > x.e.seq
                c.req(okay, "reading", "row pointers: running sum", y.e.where(), "[%s] = %s for %s below %s" % (show(y.off), show(y.val), show(v), show(L.n)))
        done = max([x.e.seq for x in ws] or [0])
        # order of the entries
        sorts = [e for e in I.eff if e.kind == "call" and e.name in SORTS and e.args and e.args[0].op == "ptr" and e.args[0].a[0] is M.ents]
        keys, where = [], w
        for e in sorts:
            k = order(p, I, e.args[2] if len(e.args) > 2 else None)
            a, b = e.args[0].a[1], e.args[1].a[1]
            where = e.where()
            if e.seq < lastset: c.bad("reading", "order of the entries", where, "sorted before they are read"); return
            if k is None: c.und("reading", "order of the entries", where, "comparison not followed"); return
            if not loops(e):
                if not (a is ZERO and b is nnz): c.bad("reading", "order of the entries", where, "sorts from %s to %s" % (show(a), show(b))); return
                if k[0] == "nothing": c.bad("reading", "order of the entries", where, "the comparison is no increasing order"); return
                keys = k + ([] if e.name == "std::sort" else keys)
                continue
            x = Norm(e, M)
            v = x.dims[0][-1] if x.dims else None
            a, b = subst(a, x.sub), subst(b, x.sub)
            if [d[0] for d in x.dims] != ["rows"]: c.und("reading", "order of the entries", where, "sorted in loops over %s" % x.show()); return
            if a is not M.P(v) or b is not M.P(add(v, ONE)): c.bad("reading", "order of the entries", where, "sorts from %s to %s" % (show(a), show(b))); return
            if e.seq < done: c.bad("reading", "order of the entries", where, "rows are sorted before the row pointers are known"); return
            if keys[:1] == ["rowind"]: keys = ["rowind"] + [q for q in k if q != "rowind"]
        c.req(keys[:2] == ["rowind", "colind"], "reading", "order of the entries", where, "ordered by %s" % (", then ".join(keys) or "nothing"))
        late = [e for e in sorts if not loops(e) and any(isinstance(x.e, object) and x.e.seq < e.seq and False for x in ws)]


# ------------------------------------------------------------------ coordinate to scalar rows
def coo_to_csr(c, p):
    for f in fns(p, "convertToCSR"):
        M = Coo()
        o = Out(c, p, f, this=COO, M=M)
        w, rule, inst = at(f), "coordinate-to-rows", "convertToCSR"
        if o.obj is None: c.und(rule, inst, w, "result not followed"); continue
        n, nnz = M.n, M.nnz
        filled(c, o, rule, inst, "browptr", add(n, ONE), lambda i: load(M.ptr, i), w)
        filled(c, o, rule, inst, "bcolind", nnz, lambda i: M.f(i, "colind"), w)
        filled(c, o, rule, inst, "vals", nnz, lambda i: M.f(i, "value"), w)
        B = o.array("browptr")
        tot = [nnz, load(B, n) if B is not None else None, M.P(n)]
        numbers(c, o, rule, inst, w, [("nbrows", n), ("nnzb", tot), ("nbstored", tot)])
        ends(c, o, rule, inst, w, n)
        diagonal(c, o, rule, inst, w, n, M, lambda e: M.f(e, "colind"), lambda e, r: (r, M.f(e, "rowind")))


def diagonal(c, o, rule, inst, w, n, M, col, row):
    """every row's diagonal position is the position at which its column is the row, or -1"""
    A = o.array("diagind")
    i = inst + ": diagind"
    if A is None: return c.und(rule, i, w, "array not followed")
    v, l = o.field("diagind")
    if l is not None: c.req(l is n, rule, i + ": length", w, "has %s entries" % show(l))
    ns = o.norms(A)
    init = [x for x in ns if x.val is num(-1)]
    rest = [x for x in ns if x not in init]
    if not rest: return c.bad(rule, i, w, "is never found")
    for x in rest:
        if len(x.dims) == 2 and x.dims[0][0] in ("rows",) and x.dims[1][0] == "row" and x.dims[1][1] is x.dims[0][1]:
            r, e = x.vars()
        elif len(x.dims) == 2 and subst(x.loops[0].n, x.sub) is n and is_row(x, o):
            r = x.dims[0][-1]
            e = add(load(o.array("browptr"), r), x.dims[1][-1])
        else: return c.und(rule, i, x.e.where(), "found in loops over %s" % x.show())
        if x.off is not r and x.off not in row(e, r): return c.bad(rule, i, x.e.where(), "is stored at [%s]" % show(x.off))
        if x.val is not e: return c.bad(rule, i, x.e.where(), "holds %s" % show(x.val))
        good = [g for g in x.guards for q in row(e, r) if g is eq(col(e), q) or g is eq(sub(col(e), q), ZERO) or g is eq(sub(q, col(e)), ZERO)]
        if not good: return c.bad(rule, i, x.e.where(), "taken under %s" % (", ".join(map(show, x.guards)) or "no condition"))
        if [g for g in x.all() if g not in good]: return c.und(rule, i, x.e.where(), "further conditions")
    first = min(x.e.seq for x in rest)
    rowwise = [x for x in init if len(x.dims) == 1 and subst(x.loops[0].n, x.sub) is n and x.off is x.dims[0][-1] and not x.all() and x.e.seq < first]
    if not rowwise and not any(e.kind == "fill" and e.base is A for e in o.eff): return c.bad(rule, i + ": rows without diagonal entry", w, "are not marked with -1")
    c.ok(rule, i, rest[0].e.where())


def is_row(x, o):
    """is the second loop over the entries of the row of the result?"""
    B = o.array("browptr")
    r = x.dims[0][-1]
    return B is not None and subst(x.loops[1].n, x.sub) is sub(load(B, add(r, ONE)), load(B, r))


# ------------------------------------------------------------------ coordinate to block rows
def idiv(a, b): return mk("call", "idiv", a, b) if numval(b) != 1 else a


def coo_to_bsr(c, p, key):
    f = p.funcs[key]
    M = Coo()
    inst, rule, w = short(f).split("::")[-1], "coordinate-to-blocks", at(f)
    par = key.split("convertToBSR<")[1].split(">")[0].replace("Eigen::", "").split(",")
    bs, rowmajor = int(par[0]), par[1].strip() in ("RowMajor", "1", "Eigen::RowMajor")
    o = Out(c, p, f, this=COO, M=M)
    if o.obj is None: return c.und(rule, inst, w, "result not followed")
    n, B = M.n, num(bs)
    nb = idiv(n, B)
    bp, bc, va, dg = (o.array(x) for x in ("browptr", "bcolind", "vals", "diagind"))
    if None in (bp, bc, va, dg): return c.und(rule, inst, w, "arrays not followed")
    # ---- which blocks there are
    push = [e for e in o.eff if e.kind == "push"]
    copies = o.norms(bc)
    src = {x.val.a[0] for x in copies if x.val.op == "load"}
    push = [e for e in push if e.base in src]
    if len(push) != 1 or len(src) != 1: return c.und(rule, inst + ": blocks", w, "block columns are not collected in one list")
    P = Norm(push[0], M)
    V = push[0].base
    if [d[0] for d in P.dims] != ["rows", "row"] or P.dims[1][1] is not P.dims[0][1]: return c.und(rule, inst + ": blocks", P.e.where(), "collected in loops over %s" % P.show())
    r, e = P.vars()
    bcol, brow = idiv(M.f(e, "colind"), B), idiv(r, B)
    c.req(P.val is bcol, rule, inst + ": block column of an entry", P.e.where(), "is %s" % show(P.val))
    # searched for in what the row has already
    fs = [x for x in o.eff if x.kind == "call" and x.name == "std::find" and x.args[0].op == "ptr" and x.args[0].a[0] is V and loops(x) == loops(push[0])]
    if len(fs) != 1: return c.und(rule, inst + ": new blocks", P.e.where(), "%d searches" % len(fs))
    a0, a1, a2 = (subst(x, P.sub) for x in fs[0].args[:3])
    okay = a0 is mk("ptr", V, load(bp, brow)) and a1.op == "ptr" and a1.a[0] is V and a1.a[1] is P.off and a2 is P.val
    c.req(okay, rule, inst + ": a block is looked for among those of its row", fs[0].where(), "searches for %s in [%s, %s)" % (show(a2), show(a0), show(a1)))
    hit = subst(fs[0].val, P.sub)
    fresh = [g for g in P.guards if mentions(g, hit) or mentions(g, fs[0].val)]
    absent = any(holds([g], {cmpeq(g): TRUE}) for g in fresh if cmpeq(g) is not None and (mentions(cmpeq(g), a1) or True))
    c.req(bool(fresh) and absent, rule, inst + ": a block is added when it is not there yet", P.e.where(), "added under %s" % (", ".join(map(show, P.guards)) or "no condition"))
    if [g for g in P.all() if g not in fresh]: c.und(rule, inst + ": every entry has a block", P.e.where(), "under further conditions %s" % ", ".join(map(show, P.all())))
    else: c.ok(rule, inst + ": every entry has a block", P.e.where())
    # the number of blocks so far
    counters = {x.base for x in o.eff if x.kind == "set" and loops(x) == loops(push[0]) and x.seq > push[0].seq and [y.c for y in x.ctx if isinstance(y, If)] == [y.c for y in push[0].ctx if isinstance(y, If)]
                and isinstance(x.val, T) and numval(sub(x.val, ONE)) is None and sub(x.val, ONE).op == "opq"}
    names = [show(x) for x in counters]
    isnow = lambda t: t.op == "opq" and any("." + q + ")" in show(t) and show(t).startswith("opq(h") for q in names)
    isfin = lambda t: t.op == "opq" and any("." + q + ")" in show(t) and show(t).startswith("opq(out") for q in names)
    # ---- row pointers
    ws = o.norms(bp)
    i = inst + ": browptr"
    last = [x for x in ws if not x.dims]
    starts = [x for x in ws if [d[0] for d in x.dims] == ["rows", "row"]]
    others = [x for x in ws if x not in last and x not in starts]
    good = len(last) == 1 and last[0].off is nb and isfin(last[0].val) and last[0].e.seq > push[0].seq
    if not last: c.bad(rule, i + ": end of the last row", w, "is never set")
    else: c.req(good, rule, i + ": end of the last row", last[0].e.where(), "[%s] = %s" % (show(last[0].off), show(last[0].val)))
    if len(starts) != 1: c.und(rule, i + ": start of a row", w, "set in %d places" % len(starts)); tally = None
    else:
        x = starts[0]
        r2, e2 = x.vars()
        b2 = idiv(r2, B)
        tally = None
        g = x.guards
        if len(g) == 1 and g[0].op == "not" and tally_of(g[0].a[0]) is not None: tally, ix = tally_of(g[0].a[0])
        if tally is None: c.und(rule, i + ": start of a row", x.e.where(), "set under %s" % ", ".join(map(show, g)))
        else:
            marks = [y for y in o.norms(tally) if y.dims and y.val is ONE]
            c.req(x.off is b2 and ix is b2 and isnow(x.val) and x.e.seq < fs[0].seq, rule, i + ": start of a row", x.e.where(), "[%s] = %s when [%s] is not marked" % (show(x.off), show(x.val), show(ix)))
            c.req(any(subst(y.off, {}) is x.off and y.guards == g for y in marks), rule, i + ": only the first entry of a block row starts it", x.e.where(), "the row is not marked as started")
    fix = [x for x in others if x.val.op == "load" and x.val.a[0] is bp]
    zero = [x for x in others if x.val is ZERO]
    if tally is not None:
        okay = False
        for x in fix:
            if len(x.dims) != 1: continue
            v = x.off
            L = x.loops[0]
            lo = sub(v, x.dims[0][-1])
            g = [tally_of(q.a[0]) for q in x.guards if q.op == "not"]
            okay = x.val is load(bp, add(v, ONE)) and L.dir < 0 and numval(lo) is not None and numval(lo) <= 1 and add(subst(L.n, x.sub), lo) is nb and len(g) == 1 and len(x.all()) == 1 and g[0] == (tally, v) and last and x.e.seq > last[0].e.seq
            if okay: break
        if fix and not okay: c.bad(rule, i + ": rows without entries", fix[0].e.where(), "[%s] = %s for %s below %s under %s" % (show(fix[0].off), show(fix[0].val), show(fix[0].dims[0][-1]) if fix[0].dims else "", show(fix[0].loops[0].n) if fix[0].loops else "", ", ".join(map(show, fix[0].all()))))
        elif not fix: c.bad(rule, i + ": rows without entries", w, "keep no start")
        else: c.ok(rule, i + ": rows without entries", fix[0].e.where())
        c.req(any(not x.all() and together(pieces([x]), ZERO, add(nb, ONE)) and x.e.seq < push[0].seq for x in zero), rule, i + ": the first row starts at zero", w, "not set before the entries are seen")
    v, l = o.field("browptr")
    c.req(l is add(nb, ONE), rule, i + ": length", w, "is %s" % (show(l) if l is not None else "unknown"))
    done = max(x.e.seq for x in ws)
    # ---- order of the blocks
    so = [x for x in o.eff if x.kind == "call" and x.name in SORTS and x.args[0].op == "ptr" and x.args[0].a[0] in (V, bc)]
    if not so: c.bad(rule, inst + ": blocks of a row are sorted by column", P.e.where(), "they stay in the order in which the rows refer to them")
    else:
        x = Norm(so[0], M)
        u = x.dims[0][-1] if len(x.dims) == 1 else None
        if u is None or len(so) > 1: c.und(rule, inst + ": blocks of a row are sorted by column", so[0].where(), "in loops over %s" % x.show())
        else:
            a, b = (subst(t, x.sub).a[1] for t in so[0].args[:2])
            okay = subst(x.loops[0].n, x.sub) is nb and a is load(bp, u) and b is load(bp, add(u, ONE)) and len(so[0].args) == 2 and not x.all()
            if len(so[0].args) > 2: c.und(rule, inst + ": blocks of a row are sorted by column", so[0].where(), "comparison not followed")
            else: c.req(okay and so[0].seq > done, rule, inst + ": blocks of a row are sorted by column", so[0].where(), "sorts [%s, %s) for %s below %s" % (show(a), show(b), show(u), show(x.loops[0].n)))
        done = max(done, so[0].seq)
    # ---- columns
    i = inst + ": bcolind"
    good = len(copies) == 1 and copies[0].val is load(V, copies[0].off) and not copies[0].all() and isfin(subst(copies[0].loops[0].n, copies[0].sub)) and copies[0].off is copies[0].dims[0][-1] and (copies[0].e.seq > done or so and so[0].args[0].a[0] is bc)
    c.req(good, rule, i, copies[0].e.where(), "[%s] = %s for %s" % (show(copies[0].off), show(copies[0].val), copies[0].show()))
    v, l = o.field("bcolind")
    c.req(l is not None and isfin(l), rule, i + ": length", w, "is %s" % (show(l) if l is not None else "unknown"))
    v, l = o.field("vals")
    nnzb = None if l is None else scale(l, 1 / bs ** 2) if False else next((x for x in walk(l) if isfin(x)), None)
    c.req(l is not None and nnzb is not None and l is scale(nnzb, bs * bs), rule, inst + ": vals: length", w, "is %s" % (show(l) if l is not None else "unknown"))
    # ---- diagonal
    diagonal(c, o, rule, inst, w, nb, M, lambda e: load(V, e) if mentions_any(o, dg, V) else load(bc, e), lambda e, r: (r,))
    dd = [x for x in o.norms(dg) if x.val is not num(-1)]
    if dd and any(x.e.seq < done for x in dd): c.bad(rule, inst + ": diagind: found in the final order", dd[0].e.where(), "blocks are moved afterwards")
    # ---- values
    vs = o.norms(va)
    zero = [x for x in vs if x.val is ZERO]
    puts = [x for x in vs if x not in zero]
    i = inst + ": vals"
    okz = any(len(x.dims) == 1 and x.off is x.dims[0][-1] and l is not None and subst(x.loops[0].n, x.sub) is l and not x.all() or whole_blocks(x, bs, isfin) for x in zero)
    filled_ = any(e.kind == "fill" and e.base is va and e.val is ZERO for e in o.eff)
    c.req(okz or filled_, rule, i + ": start as zero", zero[0].e.where() if zero else w, "not every stored value is set to zero" if zero else "are not set to zero")
    if len(puts) != 1: return c.und(rule, i, w, "%d writes" % len(puts)) if puts else c.bad(rule, i, w, "no value is ever stored")
    x = puts[0]
    if [d[0] for d in x.dims] != ["rows", "row"] and [d[0] for d in x.dims] != ["all"]: return c.und(rule, i, x.e.where(), "stored in loops over %s" % x.show())
    e = x.vars()[-1]
    r = x.vars()[0] if len(x.dims) == 2 else M.f(e, "rowind")
    c.req(x.val is M.f(e, "value"), rule, i + ": value of the entry", x.e.where(), "is %s" % show(x.val))
    c.req(all(z.e.seq < x.e.seq for z in zero), rule, i + ": stored after clearing", x.e.where(), "cleared afterwards")
    fs = [y for y in o.eff if y.kind == "call" and y.name == "std::find" and y.args[0].op == "ptr" and y.args[0].a[0] is bc and loops(y) == x.loops]
    if len(fs) != 1: return c.und(rule, i + ": place", x.e.where(), "%d searches" % len(fs))
    col = M.f(e, "colind")
    a = [subst(t, x.sub) for t in fs[0].args[:3]]
    br = idiv(r, B)
    c.req(a[0] is mk("ptr", bc, load(bp, br)) and a[1] is mk("ptr", bc, load(bp, add(br, ONE))) and a[2] is idiv(col, B), rule, i + ": block of the entry", fs[0].where(), "searches for %s in [%s, %s)" % (show(a[2]), show(a[0]), show(a[1])))
    pos = [y for y in walk(x.off) if y.op == "call" and y.a[0] == "ptrdiff"]
    pos = pos[0] if pos and pos[0].a[2] is mk("ptr", bc, ZERO) and mentions(subst(pos[0].a[1], x.sub), hitof(fs[0], x)) else None
    if pos is None: return c.und(rule, i + ": place", x.e.where(), "position %s" % show(x.off))
    ir, ic = sub(r, scale(idiv(r, B), bs)), sub(col, scale(idiv(col, B), bs))
    if bs == 1: ir = ic = ZERO
    local = add(scale(ir, bs), ic) if rowmajor else add(scale(ic, bs), ir)
    c.req(x.off is add(scale(pos, bs * bs), local), rule, i + ": place", x.e.where(), "[%s], required %s" % (show(x.off), show(add(scale(pos, bs * bs), local))))
    if x.all(): c.und(rule, i + ": every entry is stored", x.e.where(), "under %s" % ", ".join(map(show, x.all())))
    # ---- numbers
    for q in ("nnzb", "nbstored"):
        t = o.cell(q)
        c.req(t is not None and (isfin(t) or t is load(bp, nb)), rule, "%s: %s" % (inst, q), w, "is %s" % (show(t) if t is not None else "unknown"))
    numbers(c, o, rule, inst, w, [("nbrows", nb)])
    v, l = o.field("browendptr")
    good = v is not None
    for k in (bs, 3 * bs):
        t = fold_div(subst(v, {n: num(k)}), k) if v is not None else None
        c.req(t is not None and t.op == "ptr" and t.a[0] is fold_div(subst(bp, {n: num(k)}), k) and t.a[1] is ONE, rule, inst + ": browendptr with %d rows" % (k // bs), w, "is %s" % (show(t) if t is not None else "unknown"))
    if l is not None: c.req(fold_div(subst(l, {n: num(3 * bs)}), 0) is num(3), rule, inst + ": browendptr: length", w, "is %s" % show(l))


def hitof(call, x):
    v = call.val
    return v.a[0] if v.op == "ptr" else v


def fold_div(t, k):
    m = {}
    for y in walk(t):
        if y.op == "call" and y.a[0] == "idiv" and numval(y.a[1]) is not None and numval(y.a[2]): m[y] = num(int(numval(y.a[1])) // int(numval(y.a[2])))
    return subst(t, m) if m else t


def cmpeq(g):
    """the equality a condition consists of"""
    return g if g.op in ("eq", "eq0") else None


def tally_of(t):
    for y in walk(t):
        if y.op == "load": return y.a[0], y.a[1]
    return None


def mentions_any(o, A, V): return any(mentions(g, V) for x in o.norms(A) for g in x.guards)


def whole_blocks(x, bs, isfin):
    return False


# ------------------------------------------------------------------ rows to columns
def columns(c, p, key):
    f = p.funcs[key]
    inst, rule, w = short(f), "rows-to-columns", at(f)
    bs = int(key.split("<")[1].split(">")[0].split(",")[2])
    bs2 = bs * bs
    R = mk("obj", "out")
    M = Src(MO, False)
    o = Out(c, p, f, args={0: ("v", mk("ptr", MO, ZERO)), 1: ("v", mk("ptr", R, ZERO))}, M=M)
    o.obj = R
    n, nnz = M.n, M.size()
    cp, ri, va, dg = (o.array(x) for x in ("bcolptr", "browind", "vals", "diagind"))
    if None in (cp, ri, va, dg): return c.und(rule, inst, w, "arrays not followed")
    numbers(c, o, rule, inst, w, [("nbcols", n)])
    for A, nm, want in ((cp, "bcolptr", scale(add(n, ONE), 4)), (ri, "browind", scale(nnz, 4)), (va, "vals", scale(nnz, 8 * bs2)), (dg, "diagind", scale(n, 4))):
        al = [e for e in o.eff if e.kind == "alloc" and e.base is A]
        if al and isinstance(al[0].val, T): c.req(al[0].val is want, rule, "%s: %s: size" % (inst, nm), al[0].where(), "%s bytes, required %s" % (show(al[0].val), show(want)))
    # ---- the entries of every column are gathered
    push = [e for e in o.eff if e.kind == "push"]
    if len(push) != 1: return c.und(rule, inst, w, "entries are gathered in %d places" % len(push))
    P = Norm(push[0], M)
    if [d[0] for d in P.dims] != ["rows", "row"] or P.dims[1][1] is not P.dims[0][1]:
        return c.und(rule, inst + ": every entry", P.e.where(), "gathered in loops over %s" % P.show())
    r, e = P.vars()
    base = subst(push[0].base, P.sub)
    el = next((y for y in walk(base) if y.op == "elem"), None)
    if el is None: return c.und(rule, inst + ": column of an entry", P.e.where(), "list %s" % show(base))
    V = el.a[0]
    c.req(el.a[1] is M.C(e) and not P.all(), rule, inst + ": column of an entry", P.e.where(), "put into list %s%s" % (show(el.a[1]), " under " + ", ".join(map(show, P.all())) if P.all() else ""))
    v = P.val
    if v.op != "call" or v.a[0] != "pair": return c.und(rule, inst + ": row and values of an entry", P.e.where(), "are %s" % show(v))
    c.req(v.a[1] is r, rule, inst + ": row of an entry", P.e.where(), "is %s" % show(v.a[1]))
    byplace = v.a[2].op in ("poly", "sym") and mentions(v.a[2], e)          # the place of the entry is kept instead of its values
    if byplace: c.req(v.a[2] is e, rule, inst + ": values of an entry", P.e.where(), "are found at %s" % show(v.a[2]))
    elif v.a[2].op != "vec": c.und(rule, inst + ": values of an entry", P.e.where(), "not followed")
    else:
        bl = [Norm(x, M) for x in writes_to(o.eff, v.a[2].a[0])]
        if len(bl) == 1 and bs == 1 and len(bl[0].dims) == 2:
            x = bl[0]
            c.req(x.off is ZERO and x.val is load(M.val, x.vars()[1]) and x.loops == P.loops and x.e.seq < push[0].seq, rule, inst + ": values of an entry", x.e.where(), "[%s] = %s" % (show(x.off), show(x.val)))
        elif len(bl) != 1 or len(bl[0].dims) != 3: c.und(rule, inst + ": values of an entry", P.e.where(), "not followed")
        else:
            x = bl[0]
            k = x.dims[2][-1]
            e2 = x.dims[1][-1]
            c.req(x.off is k and x.dims[2][1] is num(bs2) and x.val is load(M.val, add(scale(e2, bs2), k)) and x.loops[:2] == P.loops and x.e.seq < push[0].seq, rule, inst + ": values of an entry", x.e.where(), "[%s] = %s for %s" % (show(x.off), show(x.val), x.show()))
    # ---- each in the order of rows
    so = [x for x in o.eff if x.kind == "call" and x.name in SORTS]
    good = P.loops[0].dir > 0
    for x in so:
        k = order(p, o.I, x.args[2] if len(x.args) > 2 else None)
        if k is None: c.und(rule, inst + ": rows of a column in order", x.where(), "comparison not followed"); good = None; break
        if k[0] != "first": c.bad(rule, inst + ": rows of a column in order", x.where(), "ordered by %s" % ", ".join(k)); good = None; break
    if good is not None: c.req(good or bool(so), rule, inst + ": rows of a column in order", P.e.where(), "gathered from the last row on and not sorted")
    # ---- written out column by column
    tot = lambda q, L: mk("sum", L) if False else None
    def start(x):
        """the position of the first entry of the column of the outer loop"""
        L = x.loops[0]
        return None
    item = lambda q, k: mk("elem", V, q)
    for A, nm in ((ri, "browind"), (va, "vals"), (dg, "diagind"), (cp, "bcolptr")):
        for x in o.norms(A): x
    wr = o.norms(ri)
    if len(wr) != 1 or len(wr[0].dims) != 2 or wr[0].dims[0][0] != "rows": return c.und(rule, inst + ": browind", w, "written in %d places" % len(wr))
    x = wr[0]
    q, k = x.vars()
    pf = None
    posn = x.off                       # first entry of the column + k
    begin = sub(posn, k)
    size = x.dims[1][1] if x.dims[1][0] == "range" else None
    ok_start = begins(begin, q, size)
    c.req(ok_start, rule, inst + ": columns one after the other", x.e.where(), "column %s starts at %s" % (show(q), show(begin)))
    lst = mk("elem", V, q)
    sizes = size is not None and size.op == "sym" and show(size).endswith("$size") and any(y is lst for y in walk(size))
    c.req(sizes, rule, inst + ": every gathered entry", x.e.where(), "takes %s entries of column %s" % (show(size) if size is not None else "?", show(q)))
    ent = entry_of(x.val)
    c.req(ent is not None and ent[0] == "first" and ent[1] is q and ent[2] is k and not x.all(), rule, inst + ": browind", x.e.where(), "[%s] = %s" % (show(x.off), show(x.val)))
    for y in o.norms(va)[:1]:
        if len(o.norms(va)) != 1 or len(y.dims) != (3 if bs > 1 else 2): c.und(rule, inst + ": vals", y.e.where(), "written in loops over %s" % y.show()); break
        q2, k2, j = y.vars() if bs > 1 else y.vars() + [ZERO]
        m = {q: q2, k: k2}
        ent = value_of(y.val)
        if byplace:
            pl = [z for z in (entry_of(z) for z in walk(y.val.a[1])) if z is not None and z[0] == "second"] if y.val.op == "load" and y.val.a[0] is M.val else []
            src = next((z for z in walk(y.val.a[1]) if entry_of(z) is not None), None) if pl else None
            ent = ("second", pl[0][1], pl[0][2], j) if len(set(pl)) == 1 and y.val.a[1] is add(scale(src, bs2), j) else None
        c.req(y.off is add(scale(subst(posn, m), bs2), j) and (bs == 1 or y.dims[2][1] is num(bs2)) and ent is not None and ent == ("second", q2, k2, j) and not y.all(), rule, inst + ": vals", y.e.where(), "[%s] = %s" % (show(y.off), show(y.val)))
    else:
        if not o.norms(va): c.bad(rule, inst + ": vals", w, "never written")
    cps = o.norms(cp)
    st_ = [y for y in cps if y.dims]
    en = [y for y in cps if not y.dims]
    good = len(st_) == 1 and len(st_[0].dims) == 1 and st_[0].off is st_[0].dims[0][-1] and subst(begin, {q: st_[0].dims[0][-1]}) is st_[0].val and subst(st_[0].loops[0].n, st_[0].sub) is n and not st_[0].all()
    c.req(good, rule, inst + ": bcolptr: start of every column", st_[0].e.where() if st_ else w, "[%s] = %s" % (show(st_[0].off), show(st_[0].val)) if st_ else "never set")
    c.req(len(en) == 1 and en[0].off is n and (en[0].val is nnz or begins(en[0].val, n, None)), rule, inst + ": bcolptr: end of the last column", en[0].e.where() if en else w, "[%s] = %s" % (show(en[0].off), show(en[0].val)) if en else "never set")
    ds = o.norms(dg)
    init = [y for y in ds if y.val is num(-1)]
    rest = [y for y in ds if y not in init]
    good = False
    for y in rest:
        if len(y.dims) != 2: continue
        q2, k2 = y.vars()
        g = y.guards
        ent = [entry_of(z) for h in g for z in walk(h) if z.op == "sym"]
        ent = [z for z in ent if z is not None] or [z for h in g for z in walk(h) if z.op == "load" and z.a[0] is ri and z.a[1] is y.val]
        eqs = [h for h in g if h.op in ("eq0", "eq") and mentions(h, q2)]
        good = y.off is q2 and y.val is subst(posn, {q: q2, k: k2}) and bool(ent) and len(eqs) == 1 and len(y.all()) == 1
        if isinstance(ent[0] if ent else None, tuple): good = good and ent[0][1] is q2 and ent[0][2] is k2 and ent[0][0] == "first"
    if not rest: c.bad(rule, inst + ": diagind", w, "never found")
    else: c.req(good, rule, inst + ": diagind", rest[0].e.where(), "[%s] = %s under %s" % (show(rest[0].off), show(rest[0].val), ", ".join(map(show, rest[0].all()))))
    c.req(any(len(y.dims) == 1 and y.off is y.dims[0][-1] and subst(y.loops[0].n, y.sub) is n and not y.all() for y in init), rule, inst + ": diagind: columns without diagonal entry", w, "are not marked with -1")
    if rest and init: c.req(min(y.e.seq for y in init) < min(y.e.seq for y in rest), rule, inst + ": diagind: marked before it is found", w, "overwritten")


def begins(t, q, size):
    """is t the number of entries in all columns before q?"""
    it = items(t)
    if len(it) != 1 or it[0][0] != 1 or it[0][2] or len(it[0][1]) != 1: return False
    s = it[0][1][0][0]
    if s.op != "sum" or s.a[0] is not q: return False
    b = subst(s.a[2], {s.a[1]: q})
    return size is None or b is size


def entry_of(t):
    """(field, list, place) of a gathered entry"""
    if t.op == "sym" and isinstance(t.a[0], T) and t.a[0].op == "fld" and t.a[0].a[0].op == "elem":
        el = t.a[0].a[0]
        k = el.a[1]
        outer = next((y for y in walk(el.a[0]) if y.op == "elem"), None)
        if outer is not None: return t.a[0].a[1], outer.a[1], k
    return None


def value_of(t):
    """(field, list, place, component) of a gathered value"""
    if t.op != "load": return None
    j, r = t.a[1], t.a[0]
    fl = next((y for y in walk(r) if y.op == "fld" and y.a[1] in ("first", "second")), None)
    if fl is None or fl.a[0].op != "elem": return None
    outer = next((y for y in walk(fl.a[0].a[0]) if y.op == "elem"), None)
    return (fl.a[1], outer.a[1], fl.a[0].a[1], j) if outer is not None else None


def columns_based_one(c, p):
    for f in fns(p, "convert_BSR_to_BSC_1based"):
        M = Src(MO, False)
        inst, rule, w = short(f), "rows-to-columns", at(f)
        o = Out(c, p, f, args={0: ("v", mk("ptr", MO, ZERO))}, M=M, noinline=("convert_BSR_to_BSC",))
        conv = [e for e in o.eff if e.kind == "call" and (e.name or "").split("::")[-1].split("<")[0] == "convert_BSR_to_BSC"]
        if len(conv) != 1 or o.obj is None: c.und(rule, inst, w, "%d conversions" % len(conv)); continue
        tmp = conv[0].args[1]
        tmp = tmp.a[0] if tmp.op == "ptr" else tmp
        c.req(conv[0].args[0].op == "ptr" and conv[0].args[0].a[0] is MO, rule, inst + ": converts the matrix given", conv[0].where(), show(conv[0].args[0]))
        n0 = o.cell("nbcols")
        for nm, length in (("bcolptr", lambda n: add(n, ONE)), ("diagind", lambda n: n), ("browind", lambda n: None)):
            v, _ = o.field(nm)
            i = "%s: %s" % (inst, nm)
            if v is None or v.op != "ptr": c.und(rule, i, w, "not followed"); continue
            A = v.a[0]
            ns = [x for x in o.norms(A)]
            if not ns: c.bad(rule, i, w, "is not raised by one"); continue
            x = ns[0]
            ps = pieces(ns)
            if ps is None: c.und(rule, i, x.e.where(), "in loops over %s" % x.show()); continue
            N = [n0, M.n] if n0 is not None else [M.n]
            want = [M.size()] + [load(mkarr(o, "bcolptr"), q) for q in N if mkarr(o, "bcolptr") is not None] if nm == "browind" else [length(q) for q in N]
            one = next((x for x in ns if x.val is not add(load(A, x.off), ONE) or x.all()), None)
            c.req(one is None and any(together(ps, ZERO, q) for q in want), rule, i, (one or x).e.where(), "[%s] = %s for %s" % (show((one or x).off), show((one or x).val), "; ".join("%s entries from %s on" % (show(b), show(a)) for a, b in ps)))
        v, _ = o.field("vals")
        if v is None or v.op != "ptr": c.und(rule, inst + ": vals", w, "not followed")
        else: c.req(not o.norms(v.a[0]), rule, inst + ": vals", w, "are changed")
        for nm in ("nbcols", "bcolptr", "browind", "vals", "diagind"):
            v = o.cell(nm)
            if v is None: c.bad(rule, "%s: %s is handed on" % (inst, nm), w, "is not set"); continue
            same = nm in show(v) or v.op == "out"
            s = o.st.cells.get(mk("fld", tmp, nm))
            c.req(s is v, rule, "%s: %s is handed on" % (inst, nm), w, "is %s" % show(v))


def mkarr(o, n):
    v, _ = o.field(n)
    return v.a[0] if v is not None and v.op == "ptr" else None


# ------------------------------------------------------------------ copies and views
def copied(c, p, key):
    f = p.funcs[key]
    M = Src(MO, False)
    inst, rule, w = short(f), "copies", at(f)
    bs = int(key.split("<")[1].split(">")[0].split(",")[2])
    o = Out(c, p, f, args={0: ("lv", MO)}, M=M)
    if o.obj is None: return c.und(rule, inst, w, "result not followed")
    stored = mk("sym", mk("fld", MO, "nbstored"))
    nnzb = mk("sym", mk("fld", MO, "nnzb"))
    # a full matrix: every count of its entries is the same
    eqs = {stored: M.size(), nnzb: M.size()}
    for n, ln, src in (("browptr", add(M.n, ONE), M.ptr), ("bcolind", M.size(), M.col), ("vals", scale(M.size(), bs * bs), M.val), ("diagind", M.n, M.diag)):
        A = o.array(n)
        i = "%s: %s" % (inst, n)
        if A is None: c.bad(rule, i, w, "is not copied") if o.cell(n) is not None and (o.cell(n).op == "null" or o.cell(n) is mk("ptr", src, ZERO)) else c.und(rule, i, w, "not followed"); continue
        al = [e for e in o.eff if e.kind == "alloc" and e.base is A]
        if al: c.req(subst(al[0].val, eqs) is scale(ln, 8 if n == "vals" else 4), rule, i + ": size", al[0].where(), "%s bytes" % show(al[0].val))
        ns = o.norms(A)
        if not ns: c.bad(rule, i, w, "is never filled"); continue
        good = [x for x in ns if x.val is load(src, x.off)]
        if len(good) != len(ns):
            x = next(x for x in ns if x not in good)
            (c.und if opaque(x.val, ()) else c.bad)(rule, i, x.e.where(), "[%s] = %s" % (show(x.off), show(x.val))); continue
        if any(x.all() for x in ns): c.und(rule, i, ns[0].e.where(), "copied under conditions"); continue
        ps = pieces(ns)
        full = ps is not None and together([(subst(a, eqs), subst(b, eqs)) for a, b in ps], ZERO, ln) or len(ns) == 1 and blockwise(ns[0], eqs, ln)
        if not full and ps is None and len(ns[0].dims) > 1 and not all(d[0] == "range" for d in ns[0].dims): c.und(rule, i, ns[0].e.where(), "copied in loops over %s" % ns[0].show())
        else: c.req(full, rule, i, ns[0].e.where(), "copies %s of %s" % (ns[0].show(), show(ln)))
    numbers(c, o, rule, inst, w, [("nbrows", M.n), ("nnzb", (nnzb, M.size())), ("nbstored", (stored, M.size()))])
    ends(c, o, rule, inst, w, M.n)


def blockwise(n, eqs, length):
    if len(n.dims) < 2: return False
    tot = subst(subst(n.loops[0].n, n.sub), eqs)
    ks = [numval(subst(L.n, n.sub)) for L in n.loops[1:]]
    if None in ks: return False
    size = 1
    for k in ks: size *= int(k)
    vs = n.vars()
    base = scale(vs[0], size)
    got = {numval(sub(subst(n.off, dict(zip(vs[1:], map(num, t)))), base)) for t in itertools.product(*[range(int(k)) for k in ks])}
    return got == set(range(size)) and length is scale(tot, size)


def storage(f): return "SRMatrixStorage" in f["params"][0]["t"]


def pointers_of(o, n):
    v, l = o.field(n)
    return v


def same_array(c, o, rule, inst, w, n, src):
    v = pointers_of(o, n)
    if v is None: return c.und(rule, "%s: %s" % (inst, n), w, "not followed")
    c.req(v is mk("ptr", src, ZERO), rule, "%s: %s" % (inst, n), w, "is %s" % show(v))


def shared(c, p):
    for f in fns(p, "share_with_const"):
        M = Src(MO, True)
        inst, rule, w = short(f), "copies", at(f)
        o = Out(c, p, f, args={0: ("lv", MO)}, M=M)
        if o.obj is None: c.und(rule, inst, w, "result not followed"); continue
        for n, s in zip(FIELDS, (M.ptr, M.col, M.val, M.diag, M.end)): same_array(c, o, rule, inst, w, n, s)
        numbers(c, o, rule, inst, w, [(q, mk("sym", mk("fld", MO, q))) for q in ("nbrows", "nnzb", "nbstored")])


def moved(c, p):
    for f in fns(p, "move_to_const"):
        if "SRMatrixStorage" not in f["params"][0]["t"]: continue
        M = Src(MO, True)
        inst, rule, w = short(f), "copies", at(f)
        o = Out(c, p, f, args={0: ("lv", MO)}, M=M)
        if o.obj is None: c.und(rule, inst, w, "result not followed"); continue
        for n, s in zip(FIELDS, (M.ptr, M.col, M.val, M.diag, M.end)): same_array(c, o, rule, inst, w, n, s)
        numbers(c, o, rule, inst, w, [(q, mk("sym", mk("fld", MO, q))) for q in ("nbrows", "nnzb", "nbstored")])


def raw_view(c, p):
    for f in fns(p, "createRawView"):
        M = Src(MO, True)
        inst, rule, w = short(f), "copies", at(f)
        o = Out(c, p, f, args={0: ("lv", MO)}, M=M)
        if o.obj is None: c.und(rule, inst, w, "result not followed"); continue
        for n, s in zip(FIELDS, (M.ptr, M.col, M.val, M.diag, M.end)): same_array(c, o, rule, inst, w, n, s)
        numbers(c, o, rule, inst, w, [(q, mk("sym", mk("fld", MO, q))) for q in ("nbrows", "nnzb", "nbstored")])


def part(c, p, key, side):
    f = p.funcs[key]
    stor = storage(f)
    M = Src(MO, stor)
    inst, rule, w = "%s%s" % (f["n"], " of " + ("storage" if stor else "raw matrix")), "copies", at(f)
    o = Out(c, p, f, args={0: ("lv", MO)}, M=M)
    if o.obj is None: return c.und(rule, inst, w, "result not followed")
    for n, s in (("bcolind", M.col), ("vals", M.val), ("diagind", M.diag)): same_array(c, o, rule, inst, w, n, s)
    lo = (lambda r: (M.P(r),)) if side == "lower" else (lambda r: (M.D(r),))
    hi = (lambda r: (add(M.D(r), ONE),)) if side == "lower" else (lambda r: (M.E(r), M.P(add(r, ONE))))
    for n, g in (("browptr", lo), ("browendptr", hi)):
        A = o.array(n)
        i = "%s: %s" % (inst, n)
        if A is None: c.und(rule, i, w, "not followed"); continue
        ns = o.norms(A)
        if not ns: c.bad(rule, i, w, "is never filled"); continue
        if len(ns) != 1 or len(ns[0].dims) != 1: c.und(rule, i, ns[0].e.where(), "written in %d places" % len(ns)); continue
        x = ns[0]
        r = x.dims[0][-1]
        c.req(x.off is r and x.val in g(r) and subst(x.loops[0].n, x.sub) is M.n and not x.all(), rule, i, x.e.where(), "[%s] = %s for %s below %s" % (show(x.off), show(x.val), show(r), show(x.loops[0].n)))
    numbers(c, o, rule, inst, w, [("nbrows", M.n), ("nbstored", mk("sym", mk("fld", MO, "nbstored")))])
    t = o.cell("nnzb")
    i = inst + ": nnzb"
    if t is None: return c.und(rule, i, w, "not followed")
    r = mk("sym", "r0")
    c.req(any(t is sum_(r, M.n, sub(b, a)) for a in lo(r) for b in hi(r)), rule, i, w, "is %s" % show(t))


if __name__ == "__main__":
    main(check, "P18", "Every conversion and copy is abstractly executed and the arrays of the result are compared with the arrays of the source: which position of the result receives which entry of the source, over which loops and under which conditions; "
         "searches, sorting, comparison functions, counting and running sums are recognised as such. Holds for every matrix, block size instantiated and storage order.",
         ["std::sort and std::find do what they are documented to do", "copyRawBSRMatrix is given a full matrix (documented)", "coordinate entries are unique"])
