"""Relations over the stored entries of a sparse-row matrix, read off the effects of a loop nest.

A loop nest that runs over rows, over the entries of a row, over the entries of the row of an entry ... is
brought to a normal form in which the loop variables are the row numbers and entry positions themselves."""
import itertools
from own import conds, loops, sat, flat
from lib import *
from terms import *
from interp import If


class Src:
    """the arrays of one matrix"""

    def __init__(self, obj, storage):
        a = (lambda n: mk("deref", mk("fld", mk("fld", obj, n), "data"))) if storage else (lambda n: mk("deref", mk("fld", obj, n)))
        self.obj = obj
        self.ptr, self.col, self.diag, self.end, self.val = map(a, ("browptr", "bcolind", "diagind", "browendptr", "vals"))
        self.n = mk("sym", mk("fld", obj, "nbrows"))
        self.storage = storage

    def P(self, r): return load(self.ptr, r)
    def C(self, e): return load(self.col, e)
    def D(self, r): return load(self.diag, r)
    def E(self, r): return load(self.end, r)

    def size(self): return self.P(self.n)


class Norm:
    """one effect with its loops in normal form"""

    def __init__(self, e, M, tag=""):
        self.e, self.M = e, M
        self.dims, self.sub, self.loopconds = [], {}, []
        rows = []
        for k, L in enumerate(loops(e)):
            n = subst(L.n, self.sub)
            v = mk("sym", "%se%d" % (tag, k))
            if n is M.n:
                v = mk("sym", "%sr%d" % (tag, k))
                self.dims.append(("rows", v)); self.sub[L.T] = v; rows.append(v); continue
            if n is M.size() or any(n is x for x in getattr(M, "alls", ())):
                self.dims.append(("all", v)); self.sub[L.T] = v; continue
            R = self.rowof(n)
            if R is not None:
                self.dims.append(("row", R, v)); self.sub[L.T] = sub(v, M.P(R)); continue
            self.dims.append(("range", n, v)); self.sub[L.T] = v
        self.loops = loops(e)
        self.guards = [subst(x, self.sub) for x in [y.c for y in e.ctx if isinstance(y, If)] + [q for q, k in e.live if k != "throw"] if x is not TRUE]
        self.loopconds = [subst(L.cond, self.sub) for L in self.loops if L.cond is not None and L.cond is not TRUE]
        self.off = subst(e.off, self.sub) if isinstance(e.off, T) else None
        self.val = subst(e.val, self.sub) if isinstance(e.val, T) else None

    def rowof(self, n):
        for c, s, m in items(n):
            if c == -1 and not m and len(s) == 1 and s[0][1] == 1 and s[0][0].op == "load" and s[0][0].a[0] is self.M.ptr:
                R = s[0][0].a[1]
                if n is sub(self.M.P(add(R, ONE)), self.M.P(R)) or n is sub(self.M.E(R), self.M.P(R)): return R
        return None

    def vars(self): return [d[-1] for d in self.dims]

    def all(self): return self.guards + self.loopconds

    def prefix(self, off=None):
        """the position written to, as (base, number added for every earlier iteration of the innermost loop)"""
        e = self.e
        off = e.off if off is None else off
        Tn = self.loops[-1].T
        base, body = [], []
        for c, s, m in items(off):
            dep = [(x, p) for x, p in s if mentions(x, Tn)]
            rest = mk_term(c, [q for q in s if q not in dep], m)
            if not dep: base.append(rest); continue
            if len(dep) != 1 or dep[0][1] != 1: return None
            x = dep[0][0]
            if x is Tn: body.append(rest)
            elif x.op == "sum" and x.a[0] is Tn: body.append(mul(rest, subst(x.a[2], {x.a[1]: Tn})))
            else: return None
        return subst(add(*base) if base else ZERO, self.sub), subst(add(*body) if body else ZERO, self.sub)

    def nest(self): return [(d[0],) + tuple(d[1:-1]) for d in self.dims]

    def show(self):
        return ", ".join("%s in %s" % (show(d[-1]), d[0] if len(d) == 2 else "%s(%s)" % (d[0], show(d[1]))) for d in self.dims)


def mk_term(c, s, m):
    r = num(c)
    for x, p in s:
        for _ in range(abs(int(p))): r = mul(r, x) if p > 0 else div(r, x)
    for x in m: r = mul(r, x)
    return r


def shape(n, *want):
    """does the nest have this shape? want: 'rows', 'row' ..., 'all'; returns the variables or None"""
    if [d[0] for d in n.dims] != list(want): return None
    return n.vars()


def truth(c, m):
    """value of a condition under an assignment of numbers and truth values, or None"""
    r = tocond(subst(c, m))
    return True if r is TRUE else False if r is FALSE else None


def holds(cs, m):
    r = [truth(c, m) for c in cs]
    return False if False in r else None if None in r else True


def writes_to(eff, base): return [e for e in eff if e.kind == "store" and e.base is base]


def scans(eff, base):
    """the calls that replace an array by its running sums"""
    return [e for e in eff if e.kind == "call" and ((e.name or "").split("::")[-1] == "inclusive_scan" and any(refers(a, base) for a in e.args) or partial(e, base))]


def partial(e, base):
    """std::partial_sum of a whole array into itself"""
    a = e.args
    return e.kind == "call" and e.name == "std::partial_sum" and len(a) == 3 and all(x.op == "ptr" and x.a[0] is base for x in a) and a[0].a[1] is ZERO and a[2].a[1] is ZERO


def runningsum(I, w, L, size):
    """the store w in loop L makes every entry of its array (of this size) the sum of the entries up to it: '' or what is wrong"""
    R = w.base
    lo = sub(w.off, L.T)
    if not (L.known and L.dir > 0) or mentions(lo, L.T): return None
    def span(first): return lo is first and L.n is sub(size, first)
    if w.val is add(load(R, w.off), load(R, sub(w.off, ONE))): return "" if span(ONE) else "runs from %s for %s entries" % (show(lo), show(L.n))
    h = sub(w.val, load(R, w.off))
    if h in I.carry and I.carry[h][2] == L.uid:
        i, x, _ = I.carry[h]
        if x is not w.val: return "adds %s" % show(x)
        if i is ZERO and lo is ZERO or i is load(R, ZERO) and lo is ONE: return "" if span(lo) else "runs from %s for %s entries" % (show(lo), show(L.n))
        return "starts from %s at %s" % (show(i), show(lo))
    return "becomes %s" % show(w.val)


def refers(a, base):
    if a is None: return False
    if a is base or (a.op in ("vec", "ptr", "lv") and (a.a[0] is base or a.a[0].op == "vec" and a.a[0].a[0] is base)): return True
    return base.op == "region" and a.op == "lv" and a.a[0] is base.a[0]
