"""Roles of an incomplete-factorisation object: factor array, scaling array, position lists, sweeps, phases."""
from rowform import *

ILUS = ("ilu0", "seqilu0", "sfilu0", "sapilu0", "async_level_ilu0")
VARIANTS = [(1, 0), (4, 0), (5, 0), (4, 1)]
NBUILD, NAPPLY = mk("sym", mk("fld", SET, "nbuildsweeps")), mk("sym", mk("fld", SET, "napplysweeps"))


def poslists(t):
    """(offset array, left list, right list) of a sum of products of two array entries, each found through a position list"""
    for x in walk(t):
        if x.op != "sum": continue
        n, body = x.a[0], x.a[2]
        its = list(items(body))
        if len(its) != 1: continue
        k, sc, nc = its[0]
        fs = [f for f, pw in sc if pw == 1] + list(nc)
        fs = [f for f in fs if f.op in ("load", "mload")]
        if len(fs) != 2 or fs[0].a[0] is not fs[1].a[0]: continue
        bs = []
        for f in fs:
            l = [y for y in walk(f.a[1]) if y.op == "load" and any(z.op == "bv" for z in walk(y.a[1]))]
            if len(l) == 1 and [q for q in items(f.a[1])][1:] == []: bs.append(l[0].a[0])
        if len(bs) != 2: continue
        ps = {y.a[0] for y in walk(n) if y.op == "load" and mentions(bsub(x), y.a[0]) and n is sub(load(y.a[0], add(y.a[1], ONE)), load(y.a[0], y.a[1]))}
        if len(ps) == 1: return ps.pop(), bs[0], bs[1]
    return None


def bsub(x): return x.a[2]


class Ilu:
    def __init__(self, p, prec, bs, stor, times=1, **kw):
        kw.setdefault("fact_inittype", 1)
        kw.setdefault("apply_inittype", 1)
        kw.setdefault("compute_precinfo", False)
        self.i = Inst(p, prec, bs, stor, **kw)
        self.name = self.i.name
        self.m = Mx(bs)
        self.scaled = kw.get("scale")
        if self.i.obj is None: return
        self.runs = [self.i.call("compute") for _ in range(times)]
        effs = [e for r in self.runs for e in r]
        raw = [e for e in effs if e.kind == "store"]
        # scaling array: receives values made of square roots of diagonal entries
        self.SC = next((e.base for e in raw if e.base.op in ("heap", "region", "deref") and
                        any(x.op == "call" and x.a[0] == "sqrt" for x in walk(e.val)) and not any(x.op in ("load", "mload") and x.a[0] is e.base for x in walk(e.val))), None)
        self.PP = self.LP = self.UP = None
        for e in raw:
            q = poslists(e.val)
            if q: self.PP, self.LP, self.UP = q; break
        norm = lambda t: splitsums(norm_end(t, self.m), self.m)
        # factor array: the heap array written entry by entry whose size is the number of stored values
        size = mul(num(8 * bs * bs), load(self.m.bp, self.m.n))
        cands = []
        for e in raw:
            if e.base.op == "heap" and e.base not in cands:
                a = [x for x in effs if x.kind == "alloc" and x.base is e.base]
                if a and a[0].val is size: cands.append(e.base)
        self.LU = None
        if len(cands) > 1:
            c2 = [b for b in cands if any(e.base is b and poslists(e.val) for e in raw)]
            cands = c2 or cands
        if cands: self.LU = cands[0]
        self.tr = Trace(keep=[x for x in (self.LU, self.SC) if x is not None], norm=norm)
        self.ss = [self.tr.feed(r) for r in self.runs]

    def scaling(self, ss):
        return [s for s in ss if s.base is self.SC]

    def scale_ok(self, s):
        """the scaling store is 1/sqrt of the diagonal entries of the current matrix"""
        m = self.m
        if m.bs == 1:
            return s.data == [(m.n, s.data[0][1])] and s.off is D[0] and s.val is inv(mk("call", "sqrt", m.v(m.diag(D[0])))) and not s.guards
        v = load(m.va, add(scale(m.diag(D[0]), m.s), scale(D[1], m.bs + 1)))
        el = mk("elemof", mload(m.va, scale(m.diag(D[0]), m.s)), D[1], D[1])
        return [n for n, d in s.data] == [m.n, num(m.bs)] and s.off is add(scale(D[0], m.bs), D[1]) and not s.guards and \
            s.val in (inv(mk("call", "sqrt", v)), inv(mk("call", "sqrt", el)))

    def a(self, i=I_, j=J_, col=None):
        """matrix entry at position j of row i, scaled if the object scales"""
        m = self.m
        c = col if col is not None else m.col(j)
        if not self.scaled: return m.v(j)
        if m.bs == 1: return mul(mul(m.v(j), load(self.SC, i)), load(self.SC, c))
        b0, b1 = mk("bvi", 0), mk("bvi", 1)
        body = mul(mul(mk("elemof", m.v(j), b0, b1), load(self.SC, add(scale(i, m.bs), b0))), load(self.SC, add(scale(c, m.bs), b1)))
        return mk("elementwise", m.bs, m.bs, body)

    def lu(self, j): return self.m.blk(self.LU, j)

    def products(self):
        t = mk("sym", "$k")
        k = add(load(self.PP, J_), t)
        return sum_(t, sub(load(self.PP, add(J_, ONE)), load(self.PP, J_)), mul(self.lu(load(self.LP, k)), self.lu(load(self.UP, k))))

    def eqn(self, part):
        m = self.m
        col = I_ if part == "D" else None
        r = sub(self.a(col=col), self.products())
        if part == "L": r = mul(r, inv(self.lu(m.diag(m.col(J_)))))
        return r

    def split(self, ss):
        """(initial, sweeps, final) stores to the factor of one computation"""
        own = [s for s in ss if s.base is self.LU]
        sw = [k for k, s in enumerate(own) if s.rep or (self.PP is not None and mentions(s.val, self.PP))]
        if not sw: return own, [], []
        return own[:sw[0]], own[sw[0]:sw[-1] + 1], own[sw[-1] + 1:]


class IluApply:
    """the phases of one application: guesses, forward solve, backward solve, final scaling"""

    def __init__(self, u):
        self.u = u
        effs = u.i.call("apply", R, Z)
        self.effs, self.threw = effs, u.i.threw
        self.throws = [e for e in effs if e.kind == "throw"]
        self.all = u.tr.feed(effs)
        LU = u.LU
        self.fw = [s for s in self.all if s.base is not Z and LU is not None and mentions(s.val, LU)]
        self.bw = [s for s in self.all if s.base is Z and LU is not None and mentions(s.val, LU)]
        self.Y = self.fw[0].base if self.fw else None
        self.lev = levels_of(self.fw + self.bw)
        k = lambda s: self.all.index(s)
        f0 = k(self.fw[0]) if self.fw else len(self.all)
        b0 = k(self.bw[0]) if self.bw else len(self.all)
        rest = [s for s in self.all if s not in self.fw and s not in self.bw]
        self.yinit = [s for s in rest if s.base is self.Y and k(s) < f0]
        self.zpre = [s for s in rest if s.base is Z and k(s) < f0]
        self.zinit = [s for s in rest if s.base is Z and f0 < k(s) < b0]
        self.zpost = [s for s in rest if s.base is Z and k(s) > b0]
        known = self.yinit + self.zpre + self.zinit + self.zpost + self.fw + self.bw
        self.other = [s for s in rest if s not in known and not local(s.base)]

    def rows(self, s, dirn):
        """(row term, problem) of a solve store"""
        m = self.u.m
        if self.lev is None:
            if [n for n, d in s.data] != [m.n]: return None, "visits %s rows, required %s" % ([n for n, d in s.data], m.n)
            if s.data[0][1] != dirn: return None, "rows are visited in the wrong direction"
            return D[0], None
        if len(s.data) != 2: return None, "not a loop over levels and their rows"
        lv = self.lev
        if s.data[1][0] is not sub(load(lv, add(D[0], ONE)), load(lv, D[0])): return None, "a level's rows are %s, required those between consecutive level offsets" % s.data[1][0]
        if s.data[0][1] != dirn: return None, "levels are visited in the wrong direction"
        return add(load(lv, D[0]), D[1]), None


def local(base):
    """storage of a variable of the function itself"""
    return base.op == "region" and base.a[0].op == "obj" and "#" in str(base.a[0].a[0])
