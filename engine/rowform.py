"""Row/entry normal form: what a store does to the entries of a row, by part of the row (strictly lower L,
diagonal D, strictly upper U), with row symbol I and entry-position symbol J."""
from lib import *

I_, J_ = mk("sym", "$I"), mk("sym", "$J")
PARTS = ("L", "D", "U")


def collapse_sub(s, bs):
    """element-by-element update of a whole block -> one block store (in place)"""
    if s.off.op != "sub": return s
    o, i, j = s.off.a
    if i is j or i not in D or j not in D: return s
    k = {D.index(i), D.index(j)}
    if any(x >= len(s.data) for x in k) or any(numval(s.data[x][0]) != bs for x in k): return s
    if mentions(o, i) or mentions(o, j) or any(mentions(g, i) or mentions(g, j) for g in s.guards): return s
    own = mk("elemof", mload(s.base, o), i, j)
    v = mk("elementwise", bs, bs, subst(s.val, {i: mk("bvi", 0), j: mk("bvi", 1)}))
    keep = [x for x in range(len(s.data)) if x not in k]
    m = {D[x]: D[n] for n, x in enumerate(keep)}
    s.val, s.off, s.guards = subst(v, m), subst(o, m), [subst(g, m) for g in s.guards]
    s.data = [(subst(s.data[x][0], m), s.data[x][1]) for x in keep]
    return s


def elem_subst(t, repl):
    """replace matrix reads inside elemof(...): elemof(elementwise(body), i, j) -> body(i, j)"""
    t = subst(t, repl) if repl else t
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go) if not leaf(x) else x
            if r.op == "elemof" and r.a[0].op == "elementwise":
                r = go(subst(r.a[0].a[2], {mk("bvi", 0): r.a[1], mk("bvi", 1): r.a[2]}))
            memo[x.id] = r
        return r
    return go(t)


class Ent:
    """part -> value of one entry store"""
    __slots__ = ("s", "vals", "rowdir", "entdir", "where")


def decide(c, part, m):
    """truth of a comparison of column and row, or of position and diagonal, for an entry of the given part"""
    pos = {"L": (None, -1), "D": (0, 0), "U": (1, None)}[part]
    col = m.col(J_)

    def lin(p):
        """p as a*(col-I) + b or a*(J-diag) + b"""
        for d in (sub(col, I_), sub(J_, m.diag(I_))):
            for a in (1, -1):
                r = sub(p, scale(d, a))
                v = numval(r)
                if v is not None: return a, v
        v = numval(p)
        return (0, v) if v is not None else None

    if c.op == "lt0":
        l = lin(c.a[0])
        if l is None: return None
        a, b = l
        lo, hi = pos
        if a < 0: lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        if hi is not None and hi + b < 0: return TRUE
        if lo is not None and lo + b >= 0: return FALSE
        return None
    if c.op == "eq0":
        l = lin(c.a[0])
        if l is None: return None
        a, b = l
        lo, hi = pos
        if part == "D": return TRUE if b == 0 else FALSE
        if b == 0: return FALSE
        return None
    return None


def resolve(t, part, m):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        d = decide(x, part, m) if x.op in ("lt0", "eq0") else None
        if d is not None: r = d
        elif leaf(x): r = x
        else: r = rebuild(x, go)
        memo[x.id] = r
        return r
    t = go(t)
    if part == "D": t = subst(t, {m.diag(I_): J_, m.col(J_): I_})
    return t


def entries(s, m, size=None):
    """Ent of a store to a per-entry array (block size m.bs), or None"""
    if m.bs > 1: collapse_sub(s, m.bs)
    e = Ent()
    e.s, e.where = s, s.e.where()
    S = m.s
    nnz = [load(m.bp, m.n)]
    off, val, gs = s.off, s.val, s.guards
    if len(s.data) == 1:
        n, d = s.data[0]
        e.rowdir = e.entdir = d
        if off is scale(D[0], S) and n in nnz:
            sb = {D[0]: J_}; parts = PARTS
        elif off is D[0] and S > 1 and n in [scale(x, S) for x in nnz]:
            # whole array, scalar by scalar
            if val is ZERO: e.vals = {p: ZERO for p in PARTS}; return e if not gs else None
            if val.op == "load" and val.a[1] is D[0] and not gs:
                e.vals = {p: m.blk(val.a[0], J_) for p in PARTS}; return e
            return None
        elif n is m.n and off is scale(m.diag(D[0]), S):
            sb = {D[0]: I_}; parts = ("D",)
        else: return None
    elif len(s.data) == 2:
        (n, d0), (ln, d1) = s.data
        if n is not m.n: return None
        e.rowdir, e.entdir = d0, d1
        lo = scale(sub(off, scale(D[1], S)), TM.Fraction(1, S))
        if mentions(lo, D[1]): return None
        pts = [m.rowptr(D[0]), m.diag(D[0]), add(m.diag(D[0]), ONE), load(m.bp, add(D[0], ONE))]
        if lo not in pts: return None
        hi = add(lo, ln)
        if hi not in pts: return None
        parts = PARTS[pts.index(lo):pts.index(hi)]
        sb = {D[1]: sub(J_, lo)}
        val = subst(val, sb); off = subst(off, sb); gs = [subst(g, sb) for g in gs]
        sb = {D[0]: I_}
    else: return None
    e.vals = {}
    for p in parts:
        v, g = subst(val, sb), [subst(x, sb) for x in gs]
        g = [resolve(x, p, m) for x in g]
        if any(x is FALSE for x in g): continue
        if any(x is not TRUE for x in g): return None
        e.vals[p] = resolve(v, p, m)
    return e


class EntryArray:
    """content of a per-entry array as it is built up, by part"""

    def __init__(self, base, m):
        self.base, self.m, self.c = base, m, {}
        self.bad = None

    def own(self):
        return self.m.blk(self.base, J_)

    def feed(self, e, nest=()):
        """e: Ent; nest: parts written by other stores of the same loop nest"""
        new = {}
        m = self.m
        for p, v in e.vals.items():
            rep = {}
            if p in self.c: rep[self.own()] = self.c[p]
            # reads of the diagonal entry of the column, complete before this phase
            dd = m.blk(self.base, m.diag(m.col(J_)))
            if p != "D" and mentions(v, dd) and "D" in self.c and "D" not in e.vals and "D" not in nest:
                rep[dd] = subst(self.c["D"], {I_: m.col(J_), J_: m.diag(m.col(J_))})
            v = elem_subst(v, rep)
            new[p] = v
        self.c.update(new)


def norm_end(t, m):
    """row ends are the next row's start (matrices are stored without padding between rows)"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == "load" and x.a[0] is m.be: r = load(m.bp, add(go(x.a[1]), ONE))
            elif leaf(x): r = x
            else: r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def splitsums(t, m):
    """sums over a whole row whose terms are chosen by the position of the diagonal -> sums below and above it"""
    memo = {}

    def tests(b, v): return [x for x in walk(b) if x.op in ("lt0", "eq0") and mentions(x, v)]

    def part(x):
        """the sum over the row as the sum of its three parts, or None"""
        n, v, b = x.a
        if not tests(b, v): return None
        row = next((y.a[1] for y in walk(n) if y.op == "load" and y.a[0] is m.bp and sub(n, sub(load(m.bp, add(y.a[1], ONE)), y)) is ZERO), None)
        if row is None: return None
        q = mk("sym", "$q")
        b = subst(subst(b, {v: sub(J_, m.rowptr(row))}), {m.diag(row): m.diag(I_), row: I_} if row.op != "poly" else {m.diag(row): m.diag(I_)})
        out = []
        for P in PARTS:
            r = resolve(b, P, m)
            if tests(r, J_): return None
            if P == "D": out.append(subst(subst(r, {J_: m.diag(I_)}), {I_: row})); continue
            lo = m.rowptr(row) if P == "L" else add(m.diag(row), ONE)
            hi = m.diag(row) if P == "L" else load(m.bp, add(row, ONE))
            out.append(sum_(q, sub(hi, lo), subst(subst(r, {I_: row}), {J_: add(lo, q)})))
        return add(*out)

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = x if leaf(x) else rebuild(x, go)
            if r.op == "sum": r = part(r) or r
            memo[x.id] = r
        return r
    return go(t) if any(x.op == "sum" for x in walk(t)) else t
