"""Bounds of index expressions: linear forms over loop counters and entries of index arrays, eliminated innermost first
with the well-formedness facts of each array.  Every elimination step is the exact extreme value for some well-formed
matrix, so a bound that cannot be kept by any matrix is a definite overrun; everything else is left undecided."""
from terms import *

__all__ = ["Arr", "Prover", "lin"]


class Arr:
    """what is known of an array: its number of elements, the range of its values at a position, whether they ascend"""

    def __init__(self, size=None, lo=None, hi=None, mono=False, tight=True, what=""):
        self.size, self.lo, self.hi, self.mono, self.tight, self.what = size, lo, hi, mono, tight, what


def lin(t):
    """(constant, {atom: coefficient}) or None when t is not linear"""
    c, d = 0, {}
    for k, s, nc in items(t):
        if nc: return None
        if not s: c += k; continue
        if len(s) == 1 and s[0][1] == 1: d[s[0][0]] = d.get(s[0][0], 0) + k
        else: return None
    return c, d


class Prover:
    def __init__(self, facts):
        self.A = facts
        self.steps = 0

    def last(self, a): return self.A.role(a) is not None

    # -- least value
    def least(self, E, loops, tight=True, depth=0):
        """(expression in n and N not above any value of E, every step exact?, obstacle or None)"""
        order = {L.T: k for k, L in enumerate(loops)}
        cnt = {L.T: L for L in loops}
        for _ in range(60):
            self.steps += 1
            l = lin(E)
            if l is None: return None, False, "not linear: %s" % E
            c, d = l
            atoms = [a for a in d if not self.last(a)]
            if not atoms: return E, tight, None
            # a remainder: x - k (x / k)
            rem = next((a for a in atoms if a.op == "call" and a.a[0] == "idiv" and lin(a.a[2]) is not None and not lin(a.a[2])[1]
                        and a.a[1] in d and d[a] == -d[a.a[1]] * lin(a.a[2])[0]), None)
            if rem is not None:
                k = d[rem.a[1]]
                E = sub(sub(E, scale(rem, d[rem])), scale(rem.a[1], k))
                if k < 0: E = add(E, scale(sub(rem.a[2], ONE), k))
                continue
            # a quotient of a counter that runs over a multiple
            quo = next((a for a in atoms if a.op == "call" and a.a[0] == "idiv" and a.a[1] in cnt and self.A.role(mk("call", "idiv", cnt[a.a[1]].n, a.a[2]))), None)
            if quo is not None:
                k = d[quo]
                E = sub(E, scale(quo, k))
                if k < 0: E = add(E, scale(sub(mk("call", "idiv", cnt[quo.a[1]].n, quo.a[2]), ONE), k))
                continue
            # an atom that no other atom depends on
            dep = lambda a: any(b is not a and mentions(b, a) for b in atoms)
            free = [a for a in atoms if not (a.op == "sym" and dep(a))]
            # innermost counter first, then arrays indexed by the innermost counters, then outer counters
            def rank(a):
                deep = max([order[x] for x in walk(a) if x in order] + [-1])
                return (deep, 1 if a.op == "sym" else 0, a.d, len(str(a)))
            loads = [a for a in free if a.op == "load"]
            syms = [a for a in free if a in order]
            best = max(syms, key=lambda a: order[a]) if syms else None
            pick = None
            if best is not None and not any(order.get(x, -1) > order[best] for a in loads for x in walk(a)): pick = best
            if pick is None:
                pick = max(free, key=rank) if free else None
            if pick is None: return None, False, "circular: %s" % E
            k = d[pick]
            rest = sub(E, scale(pick, k))
            if pick in order:
                L = cnt[pick]
                if k > 0: E = rest
                else:
                    if not L.known and L.known is not None: return None, False, "loop %s has no known count" % L
                    if L.brk: tight = False
                    E = add(rest, scale(sub(L.n, ONE), k))
                continue
            if pick.op == "load" and self.A.of(pick.a[0]) is not None:
                a = self.A.of(pick.a[0])
                x = pick.a[1]
                if a.mono:
                    # pair with another entry of the same array
                    done = False
                    for q in atoms:
                        if q is pick or q.op != "load" or q.a[0] is not pick.a[0] or d[q] * k >= 0: continue
                        up, dn = (pick, q) if k > 0 else (q, pick)
                        m = min(abs(d[q]), abs(k))
                        g, tg, why = self.least(sub(up.a[1], dn.a[1]), loops, True, depth + 1) if depth < 3 else (None, False, "depth")
                        if g is not None and self.nonneg(g, loops)[0]:
                            E = sub(E, scale(sub(up, dn), m))
                            done = True
                            tight = tight and up.a[1] is not dn.a[1]
                            break
                    if done: continue
                g = a.lo if k > 0 else a.hi
                r = g(x) if g is not None else None
                if r is None: return None, False, "no bound for the values of %s" % pick
                if isinstance(r, tuple): r, t1 = r
                else: t1 = a.tight
                tight = tight and t1
                E = add(rest, scale(r, k))
                continue
            r = self.A.range(pick)
            if r is not None:
                E = add(rest, scale(r[0] if k > 0 else r[1], k))
                continue
            if pick.op == "sub":
                b, i, j = pick.a
                s = self.sub_extent
                ok = s is not None and all(self.inside(x, num(s[0]), loops) == "ok" for x in (i, j))
                if not ok: return None, False, "position in a block not bounded: %s" % pick
                E = add(rest, scale(b, k)) if k > 0 else add(rest, scale(add(b, num(s[0] * s[0] - 1)), k))
                continue
            if pick.op == "ite":
                got = []
                for v in pick.a[1:]:
                    e, t, why = self.least(add(rest, scale(v, k)), loops, False, depth + 1) if depth < 4 else (None, False, "depth")
                    if e is None: return None, False, why
                    got.append((e, t))
                for e, t in got:
                    if not self.nonneg(e, loops)[0]: return e, False, None
                return got[0][0], False, None
            if pick.op == "call" and pick.a[0] in ("min", "std::min") and k < 0 or pick.op == "call" and pick.a[0] in ("max", "std::max") and k > 0:
                got = [self.least(add(rest, scale(v, k)), loops, False, depth + 1) for v in pick.a[1:] if isinstance(v, T)] if depth < 4 else []
                got = [g for g in got if g[0] is not None]
                if got:
                    for g in got:
                        if self.nonneg(g[0], loops)[0]: return g[0], False, None
                    return got[0][0], False, None
            return None, False, "no bound for %s" % pick
        return None, False, "too many steps"

    sub_extent = None

    def closed(self, g):
        """a guard on the matrix size only, as a function of n and N; None otherwise"""
        if g.op == "not":
            t = self.closed(g.a[0])
            return None if t is None else lambda n, N: not t(n, N)
        if g.op in ("and", "or"):
            ts = [self.closed(x) for x in g.a[0]]
            if None in ts: return None
            return (lambda n, N: all(t(n, N) for t in ts)) if g.op == "and" else (lambda n, N: any(t(n, N) for t in ts))
        if g.op not in ("lt0", "eq0"): return None
        l = lin(g.a[0])
        if l is None: return None
        rs = {x: self.A.role(x) for x in l[1]}
        if not all(rs.values()): return None
        val = lambda n, N: l[0] + sum(k * (n if rs[x][0] == "n" else N) for x, k in l[1].items())
        return (lambda n, N: val(n, N) < 0) if g.op == "lt0" else (lambda n, N: val(n, N) == 0)

    def nonneg(self, E, loops, guards=()):
        """(never negative?, witness) of a linear expression in n and N over all well-formed matrices"""
        l = lin(E)
        if l is None: return False, None
        c, d = l
        roles = {a: self.A.role(a) for a in d}
        ms = {r[1] for r in roles.values() if r}
        if None in roles.values() or len(ms) > 1: return False, None
        a = sum(k for x, k in d.items() if roles[x][0] == "n")
        b = sum(k for x, k in d.items() if roles[x][0] == "N")
        inl = any(self.whole(L.n) for L in loops)
        rel = [t for t in (self.closed(g) for g in guards) if t is not None]
        for n in range(1 if inl else 0, 7):
            for N in range(n, n * n + 1):
                if any(not t(n, N) for t in rel): continue
                if a * n + b * N + c < 0: return False, (n, N)
        # on the whole cone
        if b >= 0 and a + b >= 0: return True, None
        return False, None

    def whole(self, n):
        """a loop over rows or entries (or a multiple): the matrix is not empty inside it"""
        l = lin(n)
        return l is not None and l[0] == 0 and len(l[1]) == 1 and all(k > 0 and self.A.role(a) for a, k in l[1].items())

    def guarded(self, E, loops, guards):
        """with each guard, as a difference that is not negative, taken off once or as often as needed"""
        for g in guards:
            p = g
            if p.op == "eq0":
                for h in (p.a[0], neg(p.a[0])):
                    if self.less(E, h, loops): return True
                continue
            if p.op == "not" and p.a[0].op == "eq0":
                for h in (p.a[0].a[0], neg(p.a[0].a[0])):
                    if lin(h) is None: continue
                    m, t, why = self.least(h, loops)
                    if m is not None and self.nonneg(m, loops)[0] and self.less(E, sub(h, ONE), loops): return True
                continue
            if p.op == "lt0": h = sub(neg(p.a[0]), ONE)
            elif p.op == "not" and p.a[0].op == "lt0": h = p.a[0].a[0]
            else: continue
            if self.less(E, h, loops): return True
        return False

    def less(self, E, h, loops):
        """E is never negative because h is not and E - k h is not, for some k"""
        l, lh = lin(E), lin(h)
        if l is None or lh is None: return False
        for k in {l[1][x] / lh[1][x] for x in l[1] if x in lh[1] and l[1][x] * lh[1][x] > 0} | {1}:
            m, t, why = self.least(sub(E, scale(h, k)), loops)
            if m is not None and self.nonneg(m, loops)[0]: return True
        return False

    def inside(self, off, size, loops, guards=(), width=ONE):
        """"ok", ("bad", text) or ("und", text)"""
        und = None
        for nm, E in (("below its start", off), ("past its end", sub(size, add(off, width)))):
            m, tight, why = self.least(E, loops)
            if m is not None:
                ok, wit = self.nonneg(m, loops, guards)
                if ok: continue
            if self.guarded(E, loops, guards): continue
            if m is None: und = "%s: %s" % (nm, why); continue
            rel = [g for g in guards if self.closed(g) is None and any(x in set(walk(E)) for x in walk(g) if x.op in ("load", "sym") and not self.last(x))]
            if wit is not None and tight and not rel:
                return ("bad", "%s: for a matrix of %d rows and %d entries the access reaches %s elements %s (position %s of %s)" % (
                    nm, wit[0], wit[1], abs(self.value(m, wit)), nm, off, size))
            und = "%s: least margin %s%s" % (nm, m, "" if tight else " (not attained)" if not rel else " (guarded)")
        return ("und", und) if und else "ok"

    def value(self, m, wit):
        c, d = lin(m)
        return c + sum(k * wit[0 if self.A.role(a)[0] == "n" else 1] for a, k in d.items())
