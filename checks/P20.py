"""Level schedules, column adjacency, factorisation and approximate-inverse patterns, for every sparsity pattern."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from rel import *
from model import *

MO = mk("obj", "mat")
NONNEG.add("find")


def check(c, p):
    c.par(p, [(search,), (scan,), (ilu,), (adjacency,), (sai,), (isai,), (levels,)])
    c.need("pairs", 4)
    c.need("adjacency", 4)


def fn(p, name, cls=None):
    fs = [f for f in p.funcs.values() if f["n"] == name and "body" in f and (cls is None or (f.get("cls") or "").startswith("blasted::" + cls)) and not f["n"].startswith("~")]
    if not fs: raise AnalysisBroken("no function %s" % name)
    return fs


def at(f): return "%s:%s" % (f["file"], f["line"])


class Run:
    """one run of a function on a matrix, with the search and scan helpers as primitives"""

    def __init__(self, p, f, storage, this=None):
        I = self.I = Interp(p, budget=900000)
        st = self.st = State()
        I.noinline = {g["q"] for g in p.funcs.values() if g["n"] in ("inner_search", "inclusive_scan")}

        def inner(I, st, vs, line):
            has, pos = mk("call", "has", *vs[:4]), mk("call", "find", *vs[:4])
            if vs[4].op != "ptr": return ZERO
            t = vs[4].a[0]
            t = t.a[0] if t.op == "cell" else t
            I.wrcell(st, t, ite(tocond(has), pos, I.rdcell(st, t)), line)
            return ZERO
        for g in p.funcs.values():
            if g["n"] == "inner_search": I.models[g["q"]] = inner
        I.models["inner_search"] = inner
        I.models["accumulate"] = I.models["std::accumulate"] = lambda I, st, vs, line: mk("call", "total", *vs[:3])
        self.M = Src(MO, storage)
        a = ("lv", MO) if storage else ("v", mk("ptr", MO, ZERO))
        self.ret = I.run(f, args={0: a}, this=this, cls=f.get("cls"), st=st)
        self.eff = I.eff
        self.f = f

    def member(self, o, n):
        v = self.st.cells.get(mk("fld", o, n))
        if v is not None and v.op == "vec": return v.a[0]
        return mk("region", mk("fld", o, n))

    def result(self, n):
        if self.ret is None or self.ret.op != "rec": raise AnalysisBroken("%s: result not followed" % self.f["n"])
        return self.member(self.ret.a[0], n)

    def stores(self, base): return [Norm(e, self.M) for e in writes_to(self.eff, base)]


# ------------------------------------------------------------------ primitives
def search(c, p):
    for f in fn(p, "inner_search"):
        I, st = Interp(p), State()
        A, out, loc = mk("obj", "ind"), mk("obj", "out"), None
        s, e, x = (mk("sym", n) for n in ("start", "end", "wanted"))
        I.run(f, args={0: ("v", mk("ptr", A, ZERO)), 1: ("v", s), 2: ("v", e), 3: ("v", x), 4: ("v", mk("ptr", out, ZERO))}, st=st)
        c.used(I)
        ws = [w for w in I.eff if (w.kind == "set" and w.base in (out, mk("elem", out, ZERO)) or w.kind == "store" and w.base is out)]
        if not ws: c.bad("search", "%s: result" % f["n"], at(f), "no position is ever reported"); continue
        for w in ws:
            ls = loops(w)
            if len(ls) != 1: c.und("search", "%s: result" % f["n"], w.where(), "not followed"); continue
            T_, n = ls[0].T, ls[0].n
            j = w.val
            up = sub(j, T_)
            full = n is sub(e, s) and (up is s or add(j, T_) is sub(e, ONE))
            c.req(full, "search", "%s: every position is looked at" % f["n"], w.where(), "looks at %s for %s below %s" % (show(j), show(T_), show(n)))
            g = conds(w)
            hit = eq(load(A, j), x)
            other = [q for q in g if q is not hit and not sat([hit, not_(q)]) is False]
            good = any(q is hit for q in g)
            c.req(good, "search", "%s: the position holds the wanted index" % f["n"], w.where(), "reported under %s" % ", ".join(map(show, g)))


def scan(c, p):
    for f in fn(p, "inclusive_scan"):
        if not f["params"] or "const" in f["params"][0]["t"]: continue
        I, st = Interp(p), State()
        V = mk("obj", "v")
        I.run(f, args={0: ("lv", V)}, st=st)
        c.used(I)
        R = mk("region", V)
        ws = writes_to(I.eff, R)
        inst = "inclusive_scan(%s)" % f["params"][0]["t"]
        size = mk("sym", mk("fld", R, "$size"))
        ps = [e for e in I.eff if partial(e, R)]
        if not ws and len(ps) == 1 and not loops(ps[0]):
            c.req(ps[0].args[1].a[1] is size and not conds(ps[0]), "scan", inst + ": sum", ps[0].where(), "sums up to %s" % show(ps[0].args[1].a[1])); continue
        if len(ws) != 1 or len(loops(ws[0])) != 1: c.und("scan", inst, at(f), "not followed"); continue
        w, L = ws[0], loops(ws[0])[0]
        bad = runningsum(I, w, L, size)
        if bad is None: c.und("scan", inst, w.where(), "not followed"); continue
        c.req(not bad and not conds(w), "scan", inst + ": sum", w.where(), bad or "under %s" % ", ".join(map(show, conds(w))))


# ------------------------------------------------------------------ factorisation patterns
def ilu(c, p):
    for f in fn(p, "compute_ILU_positions_CSR_CSR"):
        r = Run(p, f, False)
        M = r.M
        c.used(r.I)
        w = at(f)
        post, low, up = (r.result(n) for n in ("posptr", "lowerp", "upperp"))
        sc = scans(r.eff, post)
        if len(sc) != 1: c.bad("pairs", "offsets are summed once", w, "posptr is summed %d times" % len(sc)); continue
        cut = r.eff.index(sc[0])
        # the number of pairs of every entry
        N, first = post, ONE
        for e in writes_to(r.eff, post):
            n = Norm(e, M)
            if r.eff.index(e) > cut: c.bad("pairs", "offsets stay as summed", e.where(), "posptr is written after it was summed"); continue
            if not n.dims:
                c.req(n.off is ZERO and n.val is ZERO, "pairs", "first offset is zero", e.where(), "posptr[%s] = %s" % (show(n.off), show(n.val)))
            elif n.val.op == "load" and n.val.a[0] is not post:
                v = n.vars()
                j = v[-1]
                N, first = n.val.a[0], ZERO
                good = [d[0] for d in n.dims] in (["rows", "row"], ["all"]) and n.off is add(j, ONE) and n.val.a[1] is j and not n.all()
                c.req(good, "pairs", "offset of the entry after each entry", e.where(), "posptr[%s] = %s for %s" % (show(n.off), show(n.val), n.show()))
        incs = [Norm(e, M) for e in writes_to(r.eff, N) if loops(e) and r.eff.index(e) < cut and not (N is post and Norm(e, M).val.op == "load")]
        table(c, M, incs, w, "number of pairs", lambda n: n.off is add(n.vars()[1], first) and n.val is add(load(N, n.off), ONE), counting=True)
        zero = [e for e in r.eff if e.kind in ("fill", "resize") and e.base is N and r.eff.index(e) < cut]
        c.req(any(e.val is ZERO for e in zero), "pairs", "the numbers start at zero", w, "are not initialised")
        for nm, A, want in (("lower", low, None), ("upper", up, "find")):
            fs = [Norm(e, M) for e in writes_to(r.eff, A)]
            if any(r.eff.index(n.e) < cut for n in fs): c.bad("pairs", "%s positions: after the offsets" % nm, w, "are written before the offsets are summed")
            table(c, M, fs, w, "%s positions" % nm, lambda n: place(n, post, M, want), counting=False)


def found(t, M, k, j):
    """is this a search for column col[j] in the part of row col[k] right of (or on) the diagonal? (found, position)"""
    a = t.a[1:]
    base, s, e, x = a
    if base.op == "ptr": base = base.a[0] if base.a[1] is ZERO else None
    R = M.C(k)
    if base is not M.col or x is not M.C(j): return False
    if e is not M.P(add(R, ONE)) and e is not M.E(R): return False
    return s in (M.D(R), M.P(R), add(M.D(R), ONE))


def place(n, post, M, want):
    """written at the next free place of entry j, holding the right position"""
    if len(n.dims) != 3: return None
    i, j, k = n.vars()
    pf = n.prefix()
    if pf is None: return None
    base, body = pf
    if base is not load(post, j): return "written from %s" % show(base)
    n.body = body
    v = n.val
    if want is None: return True if v is k else "holds %s" % show(v)
    while v.op == "ite": v = v.a[1] if v.a[1].op == "call" else v.a[2]
    if v.op == "call" and v.a[0] == "find": return True if found(v, M, k, j) else "holds the position found by %s" % show(v)
    return "holds %s" % show(v)


def table(c, M, ns, w, what, okay, counting):
    """the pairs counted or stored are those of an incomplete factorisation, decided for every order of the three indices"""
    if not ns: return c.bad("pairs", what, w, "never written")
    for n in ns:
        if [d[0] for d in n.dims] != ["rows", "row", "row"]: return c.und("pairs", what, n.e.where(), "loops over %s" % n.show())
        i, j, k = n.vars()
        if n.dims[1][1] is not i or n.dims[2][1] is not i: return c.bad("pairs", what + ": rows", n.e.where(), "loops over %s" % n.show())
        r = okay(n)
        if r is None: return c.und("pairs", what, n.e.where(), "position %s, value %s not followed" % (show(n.off), show(n.val)))
        if r is not True: return c.bad("pairs", what + ": place and value", n.e.where(), r if isinstance(r, str) else "[%s] = %s" % (show(n.off), show(n.val)))
        # the search
        for g in n.all() + ([n.body] if not counting else []):
            for x in walk(g):
                if x.op == "call" and x.a[0] in ("has", "find") and not found(x, M, k, j):
                    return c.bad("pairs", what + ": search", n.e.where(), "the partner is looked up by %s" % show(x))
    bad = None
    for vi, vj, vk, hit in itertools.product(range(4), range(4), range(4), (False, True)):
        tot = 0
        for n in ns:
            i, j, k = n.vars()
            m = {i: num(vi), M.C(j): num(vj), M.C(k): num(vk)}
            for g in n.all() + ([n.body] if not counting else []):
                for x in walk(g):
                    if x.op == "call" and x.a[0] == "find": m[x] = num(99)      # right of a diagonal: never the first stored entry
                    if x.op == "call" and x.a[0] == "has": m[x] = TRUE if hit else FALSE; m[tocond(x)] = TRUE if hit else FALSE
            h = holds(n.all(), m)
            if h is None: return c.und("pairs", what, n.e.where(), "condition %s not decided" % ", ".join(map(show, n.all())))
            if h: tot += 1
            if not counting and holds(n.loopconds + outer(n), m) is not False:
                b = subst(n.body, m)
                if numval(b) is None: return c.und("pairs", what, n.e.where(), "places used by earlier pairs: %s" % show(n.body))
                if numval(b) != (1 if h else 0): bad = "a pair with row %d, column %d, intermediate %d%s moves the next place by %s" % (vi, vj, vk, "" if hit else " and no partner", show(b)); where = n.e.where()
        want = 1 if vk < vi and vk < vj and hit else 0
        if tot != want: bad = "row %d, column %d, intermediate %d, partner %s: taken %d times, required %d" % (vi, vj, vk, "present" if hit else "absent", tot, want); where = ns[0].e.where()
        if bad: return c.bad("pairs", what + ": exactly the matching pairs", where, bad)
    for n in ns: c.ok("pairs", what + ": place and value at line %s" % n.e.line, n.e.where())
    c.ok("pairs", what + ": exactly the matching pairs", w)


def outer(n):
    """the guards that do not change in the innermost loop"""
    return [g for g in n.guards if not mentions(g, n.vars()[-1])]


# ------------------------------------------------------------------ columns
def adjacency(c, p):
    fs = [f for f in fn(p, "compute") if "ColumnAdjacency" in (f.get("cls") or "")]
    for f in fs:
        o = mk("obj", "adj")
        r = Run(p, f, True, this=o)
        M = r.M
        c.used(r.I)
        w = at(f)
        ptrs, rows, locs = (r.member(o, n) for n in ("ptrs", "col_rows", "rows_loc"))
        sc = scans(r.eff, ptrs)
        if len(sc) != 1: c.bad("adjacency", "offsets are summed once", w, "summed %d times" % len(sc)); continue
        cut = r.eff.index(sc[0])
        ini = [e for e in r.eff[:cut] if e.kind in ("fill", "resize") and e.base is ptrs]
        c.req(bool(ini) and ini[-1].val is ZERO and ini[-1].kind == "fill", "adjacency", "the numbers start at zero", w, "are not reset")
        counts(c, r, ptrs, cut, lambda e: M.C(e), "adjacency", "entries of each column", w)
        filled(c, r, cut, ptrs, [(rows, "row", "row"), (locs, "position", "entry")], lambda e: M.C(e), "adjacency", w)


def counts(c, r, A, cut, key, rule, what, w):
    """A[key(e)+1] is increased by one for every stored entry"""
    M = r.M
    ns = [n for n in r.stores(A) if n.dims and r.eff.index(n.e) < cut]
    if not ns: return c.bad(rule, what + ": counted", w, "are never counted")
    if len(ns) > 1: return c.und(rule, what + ": counted", w, "several counting loops")
    n = ns[0]
    d = [x[0] for x in n.dims]
    if not (d == ["all"] or d == ["rows", "row"]): return part(c, n)(rule, what + ": counted", n.e.where(), "loops over %s" % n.show())
    if d == ["rows", "row"] and n.dims[1][1] is not n.vars()[0]: return c.bad(rule, what + ": counted", n.e.where(), "loops over %s" % n.show())
    e = n.vars()[-1]
    c.req(n.off is add(key(e), ONE) and n.val is add(load(A, n.off), ONE) and not n.all(), rule, what + ": counted", n.e.where(), "[%s] = %s%s" % (show(n.off), show(n.val), " under %s" % ", ".join(map(show, n.all())) if n.all() else ""))


def filled(c, r, cut, ptrs, arrays, key, rule, w):
    """every stored entry takes the next free place of its column"""
    M = r.M
    F = None
    direct = False
    for A, what, kind in arrays:
        ns = r.stores(A)
        if len(ns) != 1: c.req(bool(ns), rule, "%s of every entry" % what, w, "is never stored") if not ns else c.und(rule, "%s of every entry" % what, w, "stored in several places"); continue
        n = ns[0]
        d = [x[0] for x in n.dims]
        if d != ["rows", "row"] or n.dims[1][1] is not n.vars()[0]:
            (c.und if d[:1] in (["range"], ["all"]) or not d else c.bad)(rule, "%s of every entry" % what, n.e.where(), "loops over %s" % n.show()); continue
        i, e = n.vars()
        if r.eff.index(n.e) < cut: c.bad(rule, "%s: after the offsets" % what, n.e.where(), "stored before the offsets are summed"); continue
        rest = sub(n.off, load(ptrs, key(e)))
        # (a place kept per column may also count from the offset of the column)
        if rest.op != "load" and n.off.op == "load" and n.off.a[0] is not ptrs: rest = n.off
        fl = rest if rest.op == "load" and rest.a[1] is key(e) else None
        direct = direct or fl is not None and rest is n.off
        c.req(fl is not None and not n.all(), rule, "%s: place" % what, n.e.where(), "[%s]%s" % (show(n.off), " under %s" % ", ".join(map(show, n.all())) if n.all() else ""))
        c.req(n.val is (i if kind == "row" else e), rule, "%s: value" % what, n.e.where(), "is %s for %s" % (show(n.val), n.show()))
        if fl is not None:
            if F is not None and F[0] is not fl.a[0]: c.bad(rule, "%s: same place in every list" % what, n.e.where(), "counts with another counter")
            F = (fl.a[0], n) if F is None else (F[0], n)
    if F is None: return
    A, last = F         # (a place read after the counter was raised would be one higher)
    z = [e for e in r.eff if e.kind in ("fill", "resize") and e.base is A]
    cnt = [Norm(e, M) for e in writes_to(r.eff, A) if loops(e)]
    if direct:
        # the counters start as a copy of the summed offsets
        st = [x for x in cnt if x.val is load(ptrs, x.off)]
        cnt = [x for x in cnt if x not in st]
        s0 = st[0] if len(st) == 1 else None
        good = s0 is not None and len(s0.dims) == 1 and s0.off is s0.dims[0][-1] and (s0.dims[0][0] == "rows" or s0.dims[0][0] in ("range", "all") and subst(s0.loops[0].n, s0.sub) in (M.n, add(M.n, ONE))) and not s0.all() and r.eff.index(s0.e) >= cut and all(s0.e.seq < x.e.seq for x in cnt)
        if s0 is None and not st and not z: c.und(rule, "no places used at first", w, "start of the counters not followed")
        else: c.req(good, rule, "no places used at first", s0.e.where() if s0 else w, "the counters do not start at the offsets of the columns" if s0 is None else "[%s] = %s for %s" % (show(s0.off), show(s0.val), s0.show()))
    else: c.req(bool(z) and all(e.val is ZERO and not loops(e) for e in z), rule, "no places used at first", w, "the counter does not start at zero")
    ns = cnt
    if len(ns) != 1: return c.bad(rule, "one place used per entry", w, "the counter is changed %d times per entry" % len(ns))
    n = ns[0]
    good = [x[0] for x in n.dims] == ["rows", "row"] and n.loops == last.loops and not n.all() and n.off is key(n.vars()[1]) and n.val is add(load(A, n.off), ONE)
    c.req(good, rule, "one place used per entry", n.e.where(), "[%s] = %s for %s" % (show(n.off), show(n.val), n.show()))


# ------------------------------------------------------------------ approximate inverses
def ends(t, M):
    """row ends are written as the beginning of the next row"""
    while True:
        m = {x: M.P(add(x.a[1], ONE)) for x in walk(t) if x.op == "load" and x.a[0] is M.end}
        if not m: return t
        t = subst(t, m)


def length(M, r): return sub(M.P(add(r, ONE)), M.P(r))


def clear(t):
    """nothing in the term was left open by the analysis"""
    return not any(x.op in ("opq", "mopq", "nz") or x.op == "call" and not str(x.a[0]).startswith("set.") for x in walk(t))


def odd(c, t): return c.bad if all(clear(x) for x in ([t] if isinstance(t, T) else t)) else c.und


def part(c, n):
    """how to report an unexpected nest: bounds made of the matrix's arrays alone are decided"""
    return odd(c, [d[1] for d in n.dims if d[0] == "range"]) if any(d[0] == "range" and any(x.op == "load" and x.a[0] in (n.M.ptr, n.M.end, n.M.diag) for x in walk(d[1])) for d in n.dims) else c.und


def number(n, upto=None):
    """how often the body of a nest runs (before the current iteration, counting from loop number 'upto')"""
    g = ONE
    for q in [x.c for x in n.e.ctx if isinstance(x, If)] + [q for q, k in n.e.live if k != "throw"]:
        if q is not TRUE: g = mul(g, ite(q, ONE, ZERO))
    if upto is None:
        for L in reversed(n.loops): g = sum_(L.T, L.n, g)
        return g
    tot, inner, k = [], g, len(n.loops) - 1
    while k >= upto:
        L = n.loops[k]
        v = mk("sym", "before%d" % k)
        tot.append(sum_(v, L.T, subst(inner, {L.T: v})))
        inner = sum_(L.T, L.n, inner)
        k -= 1
    return add(*tot) if tot else ZERO


def single(c, r, A, rule, what, w, lo=None, hi=None):
    """the only loop nest that writes an array (between two effects)"""
    ns = [n for n in r.stores(A) if (lo is None or r.eff.index(n.e) > lo) and (hi is None or r.eff.index(n.e) < hi)]
    if not ns: c.bad(rule, what, w, "never written"); return None
    if len(ns) > 1: c.und(rule, what, w, "written at %d places" % len(ns)); return None
    return ns[0]


def nest(n, M, depth, incomplete):
    """rows, entries of the row, entries of the rows of these entries, (again the entries of the row): the variables, or a complaint"""
    d = [x[0] for x in n.dims]
    if any(x not in ("rows", "row") for x in d): return None
    if len(d) != depth: return "loops over %s" % n.show()
    v = n.vars()
    if d[0] != "rows" or n.dims[1][1] is not v[0]: return "loops over %s" % n.show()
    if depth == 2: return list(v)
    rest = n.dims[2:]
    K = [x for x in rest if x[1] is M.C(v[1])]
    L = [x for x in rest if x[1] is v[0]]
    if len(K) != 1 or len(L) != (1 if incomplete else 0): return "loops over %s" % n.show()
    return [v[0], v[1], K[0][2]] + [x[2] for x in L]


def guard(n, M, v, incomplete):
    want = eq(M.C(v[3]), M.C(v[2])) if incomplete else TRUE
    g = [ends(q, M) for q in n.all()]
    g = [q for q in g if q is not TRUE]
    return (not g) if want is TRUE else (len(g) == 1 and g[0] is want)


def pattern(c, p, name, incomplete):
    for f in fn(p, name):
        r = Run(p, f, True)
        M, I, w, rule = r.M, r.I, at(f), "isai" if incomplete else "sai"
        c.used(I)
        rp, nv, ne, cen, cp, pos, ind = (r.result(x) for x in ("sairowptr", "nVars", "nEqns", "localCentralRow", "bcolptr", "bpos", "browind"))
        idx = r.eff.index
        s1, s2 = scans(r.eff, rp), scans(r.eff, cp)
        if len(s1) != 1 or len(s2) != 1: c.bad(rule, "offsets are summed once", w, "summed %d and %d times" % (len(s1), len(s2))); continue
        a, b = idx(s1[0]), idx(s2[0])
        c.req(a < b, rule, "offsets of rows before those of columns", w, "in the other order")

        def sized(A, what, want, first=None, lo=None):
            al = [e for e in r.eff if e.kind == "alloc" and e.base is A and not loops(e)]
            if not al: return c.und(rule, what + ": size", w, "allocation not seen")
            v = ends(al[-1].val, M)
            c.req(v is ends(want, M), rule, what + ": size", al[-1].where(), "is %s" % show(v))
            fs = [e for e in r.eff if e.kind in ("fill", "resize") and e.base is A]
            if first is not None: c.req(bool(fs) and fs[-1].val is first and idx(fs[-1]) >= idx(al[-1]) and (lo is None or idx(fs[-1]) < lo), rule, what + ": initial value", w, "starts at %s" % (show(fs[-1].val) if fs else "nothing"))

        # variables per row and offsets of rows
        n = single(c, r, nv, rule, "unknowns of each row", w)
        if n:
            i = n.vars()[0] if [x[0] for x in n.dims] == ["rows"] else None
            if i is None: part(c, n)(rule, "unknowns of each row", n.e.where(), "loops over %s" % n.show())
            else: c.req(n.off is i and ends(n.val, M) is length(M, i) and not n.all(), rule, "unknowns of each row", n.e.where(), "[%s] = %s" % (show(n.off), show(n.val)))
        sized(nv, "unknowns of each row", M.n)
        sized(rp, "offset of each row", add(M.n, ONE), ZERO, a)
        n = single(c, r, rp, rule, "offset of each row", w)
        if n:
            i = n.vars()[0] if [x[0] for x in n.dims] == ["rows"] else None
            if i is None: part(c, n)(rule, "offset of each row", n.e.where(), "loops over %s" % n.show())
            else: c.req(n.off is add(i, ONE) and (ends(n.val, M) is length(M, i) or n.val is load(nv, i)) and not n.all() and idx(n.e) < a, rule, "offset of each row", n.e.where(), "[%s] = %s" % (show(n.off), show(n.val)))

        # equations per row
        sized(ne, "equations of each row", M.n)
        n = single(c, r, ne, rule, "equations of each row", w)
        if n:
            if [x[0] for x in n.dims] != ["rows"]: part(c, n)(rule, "equations of each row", n.e.where(), "loops over %s" % n.show())
            elif incomplete: c.req(n.off is n.vars()[0] and (ends(n.val, M) is length(M, n.vars()[0]) or n.val is load(nv, n.vars()[0])) and not n.all(), rule, "equations of each row", n.e.where(), "[%s] = %s" % (show(n.off), show(n.val)))
            elif n.val.op == "call" and n.val.a[0] == "set.size":
                c.req(n.off is n.vars()[0] and not n.all(), rule, "equations of each row", n.e.where(), "[%s]" % show(n.off))
                union(c, r, n.val.a[1], n, rule, "equations of each row", w)
            else: odd(c, n.val)(rule, "equations of each row", n.e.where(), "is %s" % show(n.val))

        # offsets of columns
        sized(cp, "offset of each column", add(load(rp, M.n), ONE), ZERO, b)
        n = single(c, r, cp, rule, "offset of each column", w)
        depth = 4 if incomplete else 3
        if n:
            v = nest(n, M, depth, incomplete)
            if v is None: part(c, n)(rule, "offset of each column", n.e.where(), "loops over %s" % n.show())
            elif isinstance(v, str): c.bad(rule, "offset of each column: entries counted", n.e.where(), v)
            else:
                c.req(guard(n, M, v, incomplete), rule, "offset of each column: entries counted", n.e.where(), "counted under %s" % ", ".join(map(show, n.all())))
                col = add(load(rp, v[0]), sub(v[1], M.P(v[0])))
                c.req(n.off is add(col, ONE) and n.val is add(load(cp, n.off), ONE), rule, "offset of each column: place", n.e.where(), "[%s] = %s" % (show(n.off), show(n.val)))
                c.req(a < idx(n.e) < b, rule, "offset of each column: order", n.e.where(), "counted before the rows' or after the columns' offsets are summed")
                tot = ends(number(n), M)
                for A, what in ((pos, "positions"), (ind, "local rows")): sized(A, what, tot)

        # positions and local rows
        for A, what in ((pos, "positions"), (ind, "local rows")):
            n = single(c, r, A, rule, what, w)
            if not n: continue
            c.req(idx(n.e) > b, rule, what + ": order", n.e.where(), "stored before the offsets are summed")
            v = nest(n, M, depth, incomplete)
            if v is None: part(c, n)(rule, what, n.e.where(), "loops over %s" % n.show()); continue
            if isinstance(v, str): c.bad(rule, what + ": entries", n.e.where(), v); continue
            c.req(guard(n, M, v, incomplete), rule, what + ": entries", n.e.where(), "stored under %s" % ", ".join(map(show, n.all())))
            start = load(cp, add(load(rp, v[0]), sub(v[1], M.P(v[0]))))
            want = add(start, subst(number(n, 2), n.sub))
            got, want = ends(n.off, M), ends(want, M)
            if got is want: c.ok(rule, what + ": place", n.e.where())
            else: c.bad(rule, what + ": place", n.e.where(), "[%s], required [%s]" % (show(got), show(want)))
            if A is pos: c.req(n.val is v[2], rule, what + ": value", n.e.where(), "is %s" % show(n.val))
            elif incomplete: c.req(n.val is sub(v[3], M.P(v[0])), rule, what + ": value", n.e.where(), "is %s" % show(n.val))
            else: localrow(c, r, n, v, rule, what, w)

        # the row of the identity's block
        sized(cen, "row of the identity", M.n)
        n = single(c, r, cen, rule, "row of the identity", w)
        if n:
            g = n.all()
            if [x[0] for x in n.dims] == ["rows", "row"] and n.dims[1][1] is n.vars()[0]:
                i, j = n.vars()
                c.req(incomplete and n.off is i and n.val is sub(j, M.P(i)) and len(g) == 1 and g[0] is eq(M.C(j), i), rule, "row of the identity", n.e.where(), "[%s] = %s under %s" % (show(n.off), show(n.val), ", ".join(map(show, g))))
            elif [x[0] for x in n.dims] == ["rows", "range"] and not incomplete:
                i, x = n.vars()
                V = next((y.a[0] for q in g for y in walk(q) if y.op == "load" and contents(r, y.a[0]) is not None and mentions(y.a[1], x)), None)
                S = contents(r, V)
                if S is None: c.und(rule, "row of the identity", n.e.where(), "under %s" % ", ".join(map(show, g)))
                else:
                    size = n.dims[1][1]
                    c.req(size is mk("call", "set.size", S) or size is load(ne, i), rule, "row of the identity: every equation is looked at", n.e.where(), "looks at %s" % show(size))
                    c.req(n.off is i and n.val is x and len(g) == 1 and g[0] is eq(load(V, x), i), rule, "row of the identity", n.e.where(), "[%s] = %s under %s" % (show(n.off), show(n.val), ", ".join(map(show, g))))
                    union(c, r, S, n, rule, "row of the identity", w)
            else: part(c, n)(rule, "row of the identity", n.e.where(), "loops over %s" % n.show())


def contents(r, V):
    """the set whose items, in order, a vector holds"""
    fs = [e for e in r.eff if e.kind in ("fill", "store") and e.base is V]
    if len(fs) == 1 and fs[0].kind == "fill" and fs[0].val.op == "call" and fs[0].val.a[0] == "set.items": return fs[0].val.a[1]
    return None


def union(c, r, S, user, rule, what, w):
    """a set holds exactly the columns met in the rows of the row's entries, all inserted before it is used"""
    M = r.M
    ins = [e for e in r.eff if e.kind == "insert" and e.base is S]
    other = [e for e in r.eff if e.kind == "call" and any(a is not None and a.op == "ptr" and a.a[0] is S for a in (e.args or ()))]
    if other: return c.und(rule, what + ": columns met", other[0].where(), "changed by %s" % other[0].name)
    if len(ins) != 1: return c.bad(rule, what + ": columns met", w, "no column is inserted") if not ins else c.und(rule, what + ": columns met", w, "inserted at %d places" % len(ins))
    n = Norm(ins[0], M)
    v = nest(n, M, 3, False)
    if v is None: return part(c, n)(rule, what + ": columns met", n.e.where(), "loops over %s" % n.show())
    if isinstance(v, str): return c.bad(rule, what + ": columns met", n.e.where(), v)
    c.req(not n.all() and n.val is M.C(v[2]), rule, what + ": columns met", n.e.where(), "inserts %s%s" % (show(n.val), " under %s" % ", ".join(map(show, n.all())) if n.all() else ""))
    c.req(r.eff.index(n.e) < r.eff.index(user.e) and user.loops[0] is n.loops[0], rule, what + ": columns are inserted before they are used", user.e.where(), "used elsewhere")
    dw = r.I.declw.get(S)
    c.req(dw is not None and len([x for x in dw if not isinstance(x, If)]) == 1, rule, what + ": one set for each row", n.e.where(), "the set is not made anew for each row")


def localrow(c, r, n, v, rule, what, w):
    """the stored local row is the index, among the columns met, of the entry's column"""
    M = r.M
    t = n.val
    i, j, k = v
    if t.op != "load" or t.a[1] is not sub(k, M.P(M.C(j))): return odd(c, t)(rule, what + ": value", n.e.where(), "is %s" % show(t))
    src, T0 = None, n.e.val
    A = T0.a[0]
    el = next((x for x in walk(A) if x.op == "elem"), None)
    if el is None: return c.und(rule, what + ": value", n.e.where(), "is %s" % show(t))
    reg = el.a[0]
    cand = [e for e in r.eff if e.kind == "store" and any(x.op == "elem" and x.a[0] is reg for x in walk(e.base))]
    if len(cand) != 1: return c.und(rule, what + ": value", n.e.where(), "list of local rows written at %d places" % len(cand))
    m = Norm(cand[0], M, "m")
    e2 = next(x for x in walk(cand[0].base) if x.op == "elem" and x.a[0] is reg)
    here, there = subst(el.a[1], n.sub), subst(e2.a[1], m.sub)
    d = [x[0] for x in m.dims]
    if sorted(d) != ["range", "row", "row", "rows"] or d[0] != "rows": return part(c, m)(rule, what + ": value", m.e.where(), "loops over %s" % m.show())
    if m.loops[0] is not n.loops[0]: return c.bad(rule, what + ": value", m.e.where(), "the list belongs to another row")
    mi = m.vars()[0]
    rows = [x for x in m.dims if x[0] == "row"]
    x, size = next((y[2], y[1]) for y in m.dims if y[0] == "range")
    J = [y for y in rows if y[1] is mi]
    if len(J) != 1: return c.bad(rule, what + ": value", m.e.where(), "loops over %s" % m.show())
    mj = J[0][2]
    K = [y for y in rows if y[1] is M.C(mj)]
    if len(K) != 1: return c.bad(rule, what + ": value", m.e.where(), "loops over %s" % m.show())
    mk_ = K[0][2]
    c.req(here is sub(j, M.P(i)) and there is sub(mj, M.P(mi)) and m.off is sub(mk_, M.P(M.C(mj))), rule, what + ": place in the list of local rows", m.e.where(), "[%s][%s] read as [%s][%s]" % (show(there), show(m.off), show(here), show(t.a[1])))
    g = m.all()
    V = next((y.a[0] for q in g for y in walk(q) if y.op == "load" and contents(r, y.a[0]) is not None and mentions(y.a[1], x)), None)
    S = contents(r, V)
    if S is None: return c.und(rule, what + ": value", m.e.where(), "under %s" % ", ".join(map(show, g)))
    c.req(size is mk("call", "set.size", S), rule, what + ": every equation is looked at", m.e.where(), "looks at %s" % show(size))
    c.req(len(g) == 1 and g[0] is eq(load(V, x), M.C(mk_)) and m.val is x, rule, what + ": value", m.e.where(), "%s under %s" % (show(m.val), ", ".join(map(show, g))))
    c.req(r.eff.index(m.e) < r.eff.index(n.e), rule, what + ": list filled before it is read", m.e.where(), "filled afterwards")
    union(c, r, S, m, rule, what, w)


def sai(c, p): pattern(c, p, "left_SAI_pattern", False)
def isai(c, p): pattern(c, p, "left_incomplete_SAI_pattern", True)
# ------------------------------------------------------------------ levels
def levels(c, p):
    for f in fn(p, "computeLevels"):
        I, st = Interp(p, budget=900000), State()
        find = lambda I, st, vs, line: mk("call", "list.find", *vs)
        I.models["std::find"] = I.models["find"] = find
        ret = I.run(f, args={0: ("v", mk("ptr", MO, ZERO))}, st=st)
        c.used(I)
        w, M, rule = at(f), Src(MO, False), "levels"
        if ret is None or ret.op != "vec": raise AnalysisBroken("computeLevels: result not followed")
        res, idx = ret.a[0], I.eff.index
        LV = lambda k: load(res, k)
        u = lambda inst, where, msg: c.und(rule, inst, where, msg)
        # the list of dependencies of each row
        pb = [Norm(e, M) for e in I.eff if e.kind == "list" and e.name in ("push_back", "emplace_back")]
        if len(pb) != 1: u("dependencies", w, "%d places fill the lists" % len(pb)); continue
        n = pb[0]
        if n.e.base.op != "elem" or [x[0] for x in n.dims] != ["rows", "row"]: part(c, n)(rule, "dependencies", n.e.where(), "loops over %s" % n.show()); continue
        deps = n.e.base.a[0]
        i, e = n.vars()
        c.req(n.dims[1][1] is i and subst(n.e.base, n.sub) is mk("elem", deps, i) and n.val is M.C(e) and not n.all(), rule, "every column of a row is a dependency", n.e.where(), "%s takes %s for %s" % (show(subst(n.e.base, n.sub)), show(n.val), n.show()))
        # the ends of the levels
        ps = [e for e in I.eff if e.kind == "push" and e.base is res]
        out, ins = [e for e in ps if not loops(e)], [e for e in ps if loops(e)]
        if len(ins) != 1 or len(loops(ins[0])) != 1: u("ends of levels", w, "appended at %d places" % len(ps)); continue
        P = ins[0]
        c.req(len(out) == 1 and out[0].val is ZERO and out[0].off is ZERO and idx(out[0]) < idx(P), rule, "the first level starts at row 0", w, "starts at %s" % ", ".join(show(e.val) for e in out))
        c.req(not [q for q in conds(P) if q is not TRUE], rule, "every pass ends a level", P.where(), "only under %s" % ", ".join(map(show, conds(P))))
        L0 = loops(P)[0]
        k = L0.T
        inner = [e for e in I.eff if e.kind == "set" and len(loops(e)) == 2 and loops(e)[0] is L0 and isinstance(loops(e)[1].cond, T) and any(x.op == "call" and x.a[0] == "list.front" for x in walk(loops(e)[1].cond))]
        heads = {H for e in inner for H in walk(e.val) if H in I.heads and e.val is add(H, loops(e)[1].T, ONE)}
        if len(heads) != 1: u("rows of a level", w, "the advance over rows was not followed"); continue
        H = heads.pop()
        e1 = next(e for e in inner if mentions(e.val, H))
        L1 = loops(e1)[1]
        row = add(H, L1.T)
        front = mk("call", "list.front", mk("elem", deps, row))
        c.req(I.heads[H] is ZERO, rule, "rows are taken from row 0", w, "from %s" % show(I.heads[H]))
        c.req(L0.cond is cmp("<", H, M.n), rule, "until every row is in a level", P.where(), "while %s" % show(L0.cond))
        want = cmp("<=", row, front)
        c.req(L1.cond is want and not conds(e1), rule, "a row joins a level when no earlier row is left", e1.where(), "when %s" % show(L1.cond))
        c.req(L1.n is sub(M.n, H) or L1.cond is and_(cmp("<", row, M.n), want), rule, "a level ends at the last row", e1.where(), "runs over %s rows" % show(L1.n))
        tail = any(x.op == "opq" and str(x.a[0]).startswith("out%s." % str(L1.T.a[0])[1:]) and str(x.a[0]).split(".", 1)[1] == str(H.a[0]).split(".", 1)[1] for x in (P.val,))
        if not tail and P.val.op == "opq": u("a level ends before the row that waits", P.where(), "ends at %s" % show(P.val)); continue
        if not c.req(tail, rule, "a level ends before the row that waits", P.where(), "ends at %s" % show(P.val)): continue
        # removal
        er = [e for e in I.eff if e.kind == "list" and e.name in ("erase", "remove")]
        if not er: c.bad(rule, "finished rows are removed", w, "no dependency is ever removed"); continue
        if len(er) != 1 or len(loops(er[0])) != 3 or loops(er[0])[0] is not L0: u("finished rows are removed", er[0].where(), "removed at %d places" % len(er)); continue
        E = er[0]
        L2, L3 = loops(E)[1:]
        its = [H2 for H2 in I.heads if mentions(L3.cond, H2) and H2 is not H] if isinstance(L3.cond, T) else []
        its = [h for h in its if I.heads[h].op == "call" and I.heads[h].a[0] in ("list.begin",)]
        if len(its) != 1: u("finished rows are removed", E.where(), "neighbours are met by %s" % show(L3.cond)); continue
        it = its[0]
        src = I.heads[it].a[1]
        j = src.a[1] if src.op == "elem" and src.a[0] is deps else None
        if j is None: u("finished rows are removed", E.where(), "neighbours are met by %s" % show(L3.cond)); continue
        c.req(L3.cond is not_(eq(it, mk("call", "list.end", src))), rule, "every neighbour is met", E.where(), "while %s" % show(L3.cond))
        lo = sub(j, L2.T)
        c.req(lo is LV(k) and L2.n is sub(P.val, LV(k)) and L2.cond in (None, TRUE), rule, "every row of the level is removed", E.where(), "rows %s for %s below %s" % (show(j), show(L2.T), show(L2.n)))
        at_ = E.base.a[1] if E.base.op == "elem" and E.base.a[0] is deps else None
        cell = [x for x in walk(at_)] if at_ is not None else []
        if at_ is None or it not in cell and not any(mentions(x, it) for x in cell): u("the row is removed from its neighbour", E.where(), "removed from %s" % show(E.base)) if at_ is None else c.bad(rule, "the row is removed from its neighbour", E.where(), "removed from %s" % show(E.base)); continue
        nb = mk("elem", deps, at_)
        fd = mk("call", "list.find", mk("call", "list.begin", nb), mk("call", "list.end", nb), j)
        v = E.args[1]
        got = v is j if E.name == "remove" else any(x is fd for x in walk(v))
        c.req(got, rule, "the row is removed from its neighbour", E.where(), "removes %s" % show(v))
        g = [q for q, kd in E.live if kd != "throw"] + [x.c for x in E.ctx if isinstance(x, If)]
        # (a row joins a level when no smaller row is left in its list, so "another row" and "a later row" are the same here)
        other = (not_(eq(at_, j)), cmp("<", j, at_))
        rest = [q for q in g if q is not TRUE and q not in other and q is not not_(eq(fd, mk("call", "list.end", nb)))]
        c.req(not rest, rule, "no neighbour keeps a finished row", E.where(), "removed only under %s" % ", ".join(map(show, rest)))
        c.req(any(q in other for q in g), rule, "the list being walked is left alone", E.where(), "the row is removed from the list that is walked")
        if E.name == "erase": c.req(any(q is not_(eq(fd, mk("call", "list.end", nb))) for q, kd in E.live) or any(q is not_(eq(fd, mk("call", "list.end", nb))) for q in g), rule, "a missing dependency is refused", E.where(), "erases whatever was found")


if __name__ == "__main__":
    main(check, "P20", "The loop nests that build schedules and patterns are brought to a normal form over rows and entry positions. For the factorisation pattern the conditions of counting and of storing are "
         "decided for every order of row, column and intermediate index; the place of every stored item must be the offset of its list plus the number of items stored before, counted under the same conditions. "
         "Column adjacency and approximate-inverse patterns are decided in the same way, and the level schedule by its invariant.",
         ["rows are sorted by column and hold their diagonal entry", "the pattern given to the level schedule is structurally symmetric (the code refuses others)"])
