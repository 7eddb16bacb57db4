"""Data races in work-shared loops: every shared place written by one iteration is not touched by another one.

A place is shared unless its variable is declared inside the loop (or inside the parallel region), listed in a private
or reduction clause, or allocated inside the loop. Written places must be a function of the iteration: linear in the
loop variable with enough distance, inside the row segment of the iteration's row, or through a permutation."""
import re
from lib import *
from threads import active


def words(o): return o.d.split()


def wsindex(e, simd=True):
    """positions in e.ctx of work-sharing (and simd) constructs"""
    return [k for k, f in enumerate(e.ctx) if isinstance(f, Omp) and ("for" in words(f) or (simd and "simd" in words(f)) or "taskloop" in words(f))]


def root(b):
    """the variable or allocation that holds a place"""
    while True:
        if b.op in ("fld", "region", "deref", "elem", "subm", "matdata", "sub") and isinstance(b.a[0], T): b = b.a[0]
        else: return b


def holder(b):
    """like root, but stops at a pointer's target: what a pointer variable points to is not that variable"""
    while True:
        if b.op in ("fld", "region", "elem", "subm", "matdata", "sub") and isinstance(b.a[0], T): b = b.a[0]
        else: return b


_UID = re.compile(r"#(\d+)")


class Region:
    """one work-shared loop: construct o, loop L, enclosing parallel construct P, accesses"""
    __slots__ = ("o", "L", "P", "W", "R", "ev", "where", "fn", "outer", "all", "bound")


def collect(I, effs):
    """work-shared loops of a run, in program order"""
    out, idx = [], {}
    for e in effs:
        ks = wsindex(e)
        if not ks: continue
        for k in ks:
            o = e.ctx[k]
            L = next((f for f in e.ctx[k + 1:] if isinstance(f, Loop)), None)
            key = (o.uid,)
            r = idx.get(key)
            if r is None:
                r = Region()
                r.o, r.L, r.W, r.R, r.ev, r.all, r.bound = o, None, [], [], [], [], I.bound
                r.P = next((f for f in reversed(e.ctx[:k + 1]) if isinstance(f, Omp) and "parallel" in words(f)), None)
                r.outer = [f for f in e.ctx[:k] if isinstance(f, Loop)]
                r.fn = o.fn
                r.where = "%s:%s" % (o.fn["file"].replace("/repo/", "") if o.fn else "?", o.line)
                idx[key] = r
                out.append(r)
            if L is not None and r.L is None: r.L = L
            if L is None: continue
            r.ev.append((e, k))
    return out


def clause_vars(o, kinds):
    v = []
    for cl in o.cl:
        if cl["c"] in kinds: v += cl.get("v", [])
    return v


def private(I, r, base, e):
    """is this place private to an iteration (or to a thread) of region r"""
    h = holder(base)
    if h.op in ("heap", "heapobj"):
        return h in r_alloc(r)
    if h.op == "deref":
        x = h.a[0]
        return x.op in ("heap", "heapobj") and x in r_alloc(r)
    if h.op != "obj": return False
    if getattr(r.L, "iv", None) is h: return True
    for o in [r.o] + ([r.P] if r.P is not None else []):
        if h in clause_vars(o, ("private", "firstprivate", "lastprivate", "linear")): return True
    if h in clause_vars(r.o, ("reduction",)): return True
    if r.P is not None and h in clause_vars(r.P, ("reduction",)): return True
    n = str(h.a[0])
    if n.startswith("::"): return False
    m = _UID.search(n)
    d = I.declw.get(h)
    if d is not None:
        if r.L in d: return True
        if r.P is not None and any(x is r.P for x in d): return "simd" not in words(r.o) or "for" in words(r.o) or r.o is r.P
        if r.o in d: return True
        return False
    if m is None: return False
    uid = int(m.group(1))
    # parameters and temporaries of functions called from inside the loop (or, for threads, inside the parallel region)
    if uid > r.o.uid: return True
    if "for" in words(r.o) and r.P is not None and uid > r.P.uid: return True
    return False


def r_alloc(r):
    return {x.base for x, k in r.ev if x.kind == "alloc"}


def inner_loops(r, e):
    k = next((i for i, f in enumerate(e.ctx) if f is r.L), None)
    return [f for f in e.ctx[k + 1:] if isinstance(f, Loop)] if k is not None else []


def interval(r, e, off, width):
    """(lowest, highest) scalar offset touched for one value of the loop variable, or None"""
    lo = hi = off.a[0] if off.op == "sub" else off
    todo = [(s, n) for s, n in r.bound.items() if mentions(lo, s)] + [(f.T, f.n) for f in reversed(inner_loops(r, e))]
    for s, n in todo:
        res = []
        for x, low in ((lo, True), (hi, False)):
            if not mentions(x, s): res.append(x); continue
            c = coef_of(x, s)
            v = numval(c) if c is not None else None
            if v is None: return None
            res.append(subst(x, {s: ZERO if (v > 0) == low else sub(n, ONE)}))
        lo, hi = res
    return lo, add(hi, num(width - 1))


def fname(b):
    """field name of an array base: A.browptr.data -> (A, browptr)"""
    x = b
    while x.op in ("deref", "fld", "region"):
        if x.op == "fld" and x.a[1] not in ("data",): return x.a[0], x.a[1]
        x = x.a[0]
    return None, None


START, END_, DIAG = ("browptr", "bcolptr"), ("browendptr",), ("diagind",)


def linidx(i, Tv):
    """(coefficient, rest) of an index linear in the loop variable"""
    k = coef_of(i, Tv)
    if k is None or numval(k) in (None, 0): return None
    return numval(k), sub(i, mul(k, Tv))


def rowpoint(x, Tv, s, high):
    """x = s*X[i] + rest as a lower (upper) end of row i: (matrix, T-free part of i, coefficient)"""
    for c, sc, nc in items(x):
        if nc or len(sc) != 1 or sc[0][1] != 1 or sc[0][0].op != "load": continue
        p = sc[0][0]
        if not mentions(p, Tv) or c != s: continue
        rest = numval(sub(x, mul(num(c), p)))
        if rest is None: continue
        mat, nm = fname(p.a[0])
        li = linidx(p.a[1], Tv)
        if li is None or abs(li[0]) != 1: continue
        if not high:
            if rest < 0: continue
            if nm in START or nm in DIAG: return mat, li
        else:
            if nm in START and rest <= -1: return mat, (li[0], sub(li[1], ONE))
            if nm in END_ and rest <= -1: return mat, li
            if nm in DIAG and rest <= s - 1: return mat, li
    return None


def owner(r, e, off, width, perms=()):
    """partition of an offset by the iteration: ('lin', k, c, d) | ('row', s, matrix, i0) | ('perm', k, array, d) | ('fixed',) | None"""
    Tv = r.L.T
    if off.op == "ij":
        for k in (1, 0):
            o = owner(r, e, off.a[k], 1, perms)
            if o is not None and o[0] == "lin": return ("lin2", k) + o[1:]
        return None
    iv = interval(r, e, off, width)
    if iv is None: return None
    lo, hi = iv
    if not mentions(lo, Tv) and not mentions(hi, Tv): return ("fixed", lo, hi)
    d = numval(sub(hi, lo))
    li = linidx(lo, Tv)
    if li is not None and d is not None:
        if d >= abs(li[0]): return ("overlap", lo, hi)
        return ("lin", li[0], li[1], d)
    for c, sc, nc in items(lo):
        if nc or len(sc) != 1 or sc[0][1] != 1 or sc[0][0].op != "load" or not mentions(sc[0][0], Tv) or c < 1: continue
        a, b = rowpoint(lo, Tv, c, False), rowpoint(hi, Tv, c, True)
        if a and b and a[0] is b[0] and a[1][0] == b[1][0] and a[1][1] is b[1][1]: return ("row", c, a[0], a[1][0], a[1][1])
        p = sc[0][0]
        if p.a[0] in perms and d is not None and d < c and numval(sub(lo, mul(num(c), p))) == 0:
            l = linidx(p.a[1], Tv)
            if l is not None and abs(l[0]) == 1: return ("perm", c, p.a[0], l[1], d)
    return None


def scattered(r, e):
    """the index is read from the row (column) indices of the entries of one column (row): other iterations meet the same index"""
    inner = {f.T for f in inner_loops(r, e)}
    for x in walk(e.off):
        if x.op != "load" or fname(x.a[0])[1] not in ("bcolind", "browind"): continue
        if any(mentions(x.a[1], t) for t in inner) and any(y.op == "load" and mentions(y, r.L.T) for y in walk(x.a[1])): return x.a[0]
    return None


def same(a, b):
    """do two partitions give every place to the same iteration"""
    if a is None or b is None or a[0] != b[0]: return False
    if a[0] == "lin":
        if a[1] != b[1]: return False
        x = numval(sub(a[2], b[2]))
        if x is None: return False
        lo, hi = min(0, -x), max(a[3], -x + b[3])
        return hi - lo < abs(a[1])
    if a[0] == "lin2": return a[1] == b[1] and same(("lin",) + a[2:], ("lin",) + b[2:])
    if a[0] == "row": return all(x is y or x == y for x, y in zip(a[1:], b[1:]))
    if a[0] == "perm": return a[1] == b[1] and a[2] is b[2] and a[3] is b[3]
    return False


def atomic(e, r):
    k = e.ctx.index(r.o)
    return any(isinstance(f, Omp) and ("atomic" in words(f) or "critical" in words(f)) for f in e.ctx[k + 1:])


def analyse(I, r, async_ok=lambda base: False, perms=()):
    """problems of one region: [(kind, where, message)], kind 'bad' or 'und'; and the number of places proved"""
    out, proved = [], 0
    if r.L is None: return [("und", r.where, "no loop found in the construct")], 0
    W, Rd = {}, {}
    for e, k in r.ev:
        if r.L not in e.ctx: continue
        if e.kind in ("store", "read"):
            if private(I, r, e.base, e): continue
            (W if e.kind == "store" else Rd).setdefault(e.base, []).append(e)
        elif e.kind == "set":
            if private(I, r, e.base, e): continue
            if r.L.T in list(walk(e.base)): continue
            if atomic(e, r):
                proved += 1; continue
            out.append(("bad", e.where(), "iterations of the loop at %s all write the shared variable %s" % (r.where, show(e.base))))
        elif e.kind in ("push", "resize", "fill", "veccopy"):
            if e.base is None or private(I, r, e.base, e): continue
            if any(x is r.L.T for x in walk(e.base)): continue
            out.append(("bad", e.where(), "iterations of the loop at %s all modify the shared container %s" % (r.where, show(e.base))))
    for base, ws in W.items():
        bw = max([max(x[0] * x[1] for x in I.layout.get(base, {(1, 1, 0): 0}))] + [1])
        first = None
        for e in ws:
            w = bwidth(I, e, base)
            o = owner(r, e, e.off, w, perms)
            if atomic(e, r): proved += 1; continue
            if o is None:
                sc = scattered(r, e)
                if sc is not None:
                    out.append(("bad", e.where(), "different iterations of the loop at %s write %s at the same index taken from %s, without an atomic update" % (r.where, show(base), show(sc)))); continue
                out.append(("und", e.where(), "place %s[%s] written in the loop at %s: not shown to belong to one iteration" % (show(base), show(e.off), r.where))); continue
            if o[0] in ("fixed", "overlap"):
                out.append(("und" if opaque(base) or opaque(e.off) else "bad", e.where(), "different iterations of the loop at %s write %s[%s]" % (r.where, show(base), show(e.off)))); continue
            if first is None: first = o
            elif not same(first, o):
                out.append(("bad", e.where(), "the loop at %s writes %s at places of different iterations (%s)" % (r.where, show(base), show(e.off)))); continue
            proved += 1
        anyatomic = all(atomic(e, r) for e in ws)
        seen = set()
        for e in Rd.get(base, ()):
            if e.off in seen: continue
            seen.add(e.off)
            if anyatomic and atomic(e, r): continue
            o = owner(r, e, e.off, bwidth(I, e, base), perms)
            if first is not None and same(first, o): proved += 1; continue
            if async_ok(base): proved += 1; continue
            out.append(("und" if first is None or opaque(base) or opaque(e.off) else "bad", e.where(), "the loop at %s reads %s[%s], which another iteration writes" % (r.where, show(base), show(e.off))))
    return out, proved


def bwidth(I, e, base):
    if e.off is not None and e.off.op == "sub": return max([x[0] * x[1] for x in I.layout.get(base, {(1, 1, 0): 0})] + [1])
    return e.width


# ------------------------------------------------------------------ synchronisation between the phases of a parallel region
class Item:
    __slots__ = ("kind", "o", "loops", "acc", "bar", "where")


WS = {"for", "single", "sections", "master", "masked", "section"}


def phases_of(I, effs):
    """per parallel region that is not itself a loop: its work-shared constructs and barriers in program order"""
    out, idx = [], {}
    for e in effs:
        k = next((k for k, f in enumerate(e.ctx) if isinstance(f, Omp) and "parallel" in words(f)), None)
        if k is None: continue
        P = e.ctx[k]
        if "for" in words(P) or "sections" in words(P): continue
        if P not in idx:
            idx[P] = []
            out.append((P, idx[P]))
        its = idx[P]
        if e.kind == "omp" and e.name.split()[0] == "barrier":
            it = Item()
            it.kind, it.o, it.acc, it.bar, it.loops = "barrier", None, [], True, [f for f in e.ctx[k + 1:] if isinstance(f, Loop)]
            it.where = e.where()
            its.append(it)
            continue
        kk = next((j for j in range(k + 1, len(e.ctx)) if isinstance(e.ctx[j], Omp) and WS & set(words(e.ctx[j]))), None)
        o = e.ctx[kk] if kk is not None else None
        if e.kind not in ("store", "read"): continue
        if o is None and e.kind != "read": continue
        loops = [f for f in (e.ctx[k + 1:kk] if kk is not None else e.ctx[k + 1:]) if isinstance(f, Loop)]
        it = its[-1] if its else None
        if it is None or it.kind == "barrier" or it.o is not o or (o is None and it.loops != loops):
            it = Item()
            it.kind, it.o, it.acc, it.loops, it.where = ("ws" if o is not None else "all"), o, [], loops, e.where()
            if o is not None: it.where = "%s:%s" % (o.fn["file"].replace("/repo/", "") if o.fn else "?", o.line)
            it.bar = o is not None and not ({"master", "masked"} & set(words(o))) and not any(c["c"] == "nowait" for c in o.cl)
            its.append(it)
        it.acc.append(e)
    return out


def static_same(a, b):
    """both loops hand the same iterations to the same threads"""
    def sched(o):
        s = [c for c in o.cl if c["c"] == "schedule"]
        return (s[0].get("kind"), s[0].get("chunk"), s[0].get("e")) if s else ("static", None, None)
    return a.o is not None and b.o is not None and sched(a.o) == sched(b.o) and str(sched(a.o)[0]).endswith("static")


def clauses(o, kind): return [c for c in o.cl if c["c"] == kind]


def unsynchronised(I, effs, async_ok):
    """pairs of phases with a conflict and no barrier between them: [(P, a, b, base, cyclic)], and the number of pairs examined"""
    regs = {r.o.uid: r for r in collect(I, effs)}
    bad, n = [], 0
    for P, its in phases_of(I, effs):
        if active(P) is False: continue
        pairs = []
        for i, a in enumerate(its):
            if a.kind == "barrier": continue
            synced = a.bar
            for b in its[i + 1:]:
                if synced: break
                if b.kind == "barrier": synced = True; break
                pairs.append((a, b, False))
                if b.bar and b.kind == "ws": synced = True
            # around each loop that contains a: the constructs after it, then those of the next iteration up to a
            for L in a.loops:
                seq = [x for x in its if L in x.loops]
                j = seq.index(a)
                sync = a.bar
                for x in seq[j + 1:]:
                    if x.bar: sync = True
                for b in seq[:j + 1]:
                    if sync: break
                    if b.kind == "barrier": sync = True; break
                    pairs.append((a, b, True))
                    if b.bar and b.kind == "ws": sync = True
        for a, b, cyc in pairs:
            n += 1
            A, B = access(I, regs, P, a), access(I, regs, P, b)
            for base in A:
                if base not in B: continue
                wa, wb = any(x.kind == "store" for x in A[base]), any(x.kind == "store" for x in B[base])
                if not wa and not wb: continue
                if all(any(isinstance(f, Omp) and "atomic" in words(f) for f in x.ctx) for x in A[base] + B[base]): continue
                if wa and wb and async_ok(base): continue
                if a.kind == "ws" and b.kind == "ws" and static_same(a, b) and samespace(regs, a, b, A[base], B[base]): continue
                bad.append((P, a, b, base, cyc))
    return bad, n


def samespace(regs, a, b, A, B):
    ra, rb = regs.get(a.o.uid), regs.get(b.o.uid)
    if ra is None or rb is None or ra.L is None or rb.L is None or ra.L.n is not rb.L.n or ra.L.dir != rb.L.dir: return False
    m = {rb.L.T: ra.L.T}
    offs = {x.off for x in A} | {subst(x.off, m) for x in B}
    return len(offs) == 1 and mentions(next(iter(offs)), ra.L.T)


def access(I, regs, P, it):
    d = {}
    r = regs.get(it.o.uid) if it.o is not None else None
    for e in it.acc:
        if r is not None and r.L is not None:
            if private(I, r, e.base, e): continue
        else:
            h = holder(e.base)
            if h.op == "obj":
                dw = I.declw.get(h)
                if dw is not None and any(x is P for x in dw): continue
                m = _UID.search(str(h.a[0]))
                if dw is None and m and int(m.group(1)) > P.uid: continue
        d.setdefault(e.base, []).append(e)
    return d
