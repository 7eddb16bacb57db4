"""Recomputing refreshes everything derived from the matrix values."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from ilu import *

PRECS = [(x, bs, st) for x in PT for bs, st in VARIANTS if not (x == "cscbgs" and bs > 1) and x != "none"]
FACT = {0: "zero", 1: "original", 2: "sgs"}


def check(c, p):
    jobs = []
    for q, bs, st in PRECS:
        for sc in ((False, True) if q in ILUS else (False,)):
            for fi in (FACT if q == "ilu0" else (1,)):
                for pi in ((False, True) if q in ("ilu0", "seqilu0") else (False,)):
                    jobs.append((prec, q, bs, st, sc, fi, pi))
    c.par(p, jobs)
    c.need("refresh", 40)
    c.need("same-formula", 40)


def reads(t, S):
    return any(x.op in ("load", "mload") and x.a[0] in S for x in walk(t))


def terms(s): return [s.val, s.off] + list(s.guards) + [n for n, _ in s.data]


def shape(k):
    """a statement with the engine's numbering of containers and counters left out"""
    return re.sub(r"(vec|opq|acc|#|\bi|:)\d+", r"\1", str(k))


def coeffs8(t):
    """a size in bytes that is a whole number of doubles"""
    from fractions import Fraction
    q = scale(t, Fraction(1, 8)) if isinstance(t, T) else None
    return q is not None and "/" not in str(q)


def opaque_source(t):
    return any(x.op in ("load", "mload") and x.a[0].op != "heap" and str(x.a[0]).startswith("vec") or isopaque(x) or local_item(x) for x in walk(t))


def local_item(x):
    """a member of an item of a container this computation made for itself"""
    if x.op != "sym" or not isinstance(x.a[0], T): return False
    r = x.a[0]
    while isinstance(r, T) and r.op in ("fld", "elem", "region"): r = r.a[0]
    return isinstance(r, T) and r.op == "obj" and isinstance(r.a[0], str) and re.match(r"vec\d+$", r.a[0]) is not None


def derived(ss, va, dbl):
    """arrays whose stored values depend on the matrix values"""
    # floating-point data that comes through a container the engine does not follow comes from the matrix
    S = {va} | {s.base for s in ss if s.base in dbl and opaque_source(s.val)}
    while True:
        more = {s.base for s in ss if s.base not in S and reads(s.val, S)}
        if not more: return S - {va}
        S |= more


def prec(c, p, q, bs, stor, sc, fi, pi):
    i = Inst(p, q, bs, stor, apply_inittype=1, fact_inittype=fi, scale=sc, compute_precinfo=pi)
    if i.obj is None: c.und("refresh", i.name, "src/solverfactory.cpp", "no object"); return
    m = Mx(bs)
    norm = lambda t: norm_end(t, m)
    w = i.p.method(i.cls, "compute")["file"]
    runs, cells, raws = [], [], []
    for k in range(3):
        raws.append(i.call("compute"))
        ss = merge_guarded([canon(e) for e in raws[-1] if e.kind == "store"])
        for s in ss: s.val, s.off, s.data, s.guards = norm(s.val), norm(s.off), [(norm(n), d) for n, d in s.data], [norm(g) for g in s.guards]
        runs.append(ss)
        cells.append({k2: v for k2, v in i.st.cells.items()})
    c.used(i.I)
    # arrays held by the object after each computation, by the member that holds them
    held = []
    for k in range(3):
        h = {}
        objs = {i.obj}
        for loc, v in cells[k].items():
            r = loc
            while isinstance(r, T) and r.op == "fld": r = r.a[0]
            if r is i.obj and v is not None and v.op == "ptr" and v.a[0].op == "heap": h[loc] = v.a[0]
        held.append(h)
    dbl = {e.base for r in raws for e in r if e.kind == "alloc" and e.base.op == "heap" and coeffs8(e.val)}
    S1 = derived(runs[0], m.va, dbl)
    members = {loc: b for loc, b in held[0].items() if b in S1}
    if not members: c.und("refresh", i.name, w, "no stored data found"); return
    # first to second computation, then second to third
    for k in (1, 2):
        nm = "%s, %s computation" % (i.name, ("", "second", "third")[k])
        ren = {}
        S2 = derived(runs[k], m.va, dbl)
        fresh = {e.base for e in raws[k] if e.kind == "alloc"}
        for loc, b in members.items():
            b2 = held[k].get(loc)
            mem = str(loc).split(".")[-1]
            inst = "%s: %s" % (nm, mem)
            if b2 is None: c.bad("refresh", inst, w, "the member no longer holds its array after recomputation"); continue
            ren[b2] = b
            s2 = [s for s in runs[k] if s.base is b2]
            s1 = [s for s in runs[0] if s.base is b]
            if not s2 or b2 not in S2:
                c.bad("refresh", inst, s1[-1].e.where() if s1 else w, "holds values computed from the matrix (%s) that a recomputation does not compute again" % s1[-1].e.where()); continue
            c.ok("refresh", inst, s2[-1].e.where())
            if b2 is not held[k - 1].get(loc):
                old = held[k - 1].get(loc)
                fr = any(e.kind == "free" and e.val is not None and mentions(e.val, old) for e in raws[k])
                c.req(fr, "one-allocation", inst, s2[0].e.where(), "the array is allocated again without releasing the previous one")
            else: c.ok("one-allocation", inst, w)
        for loc, v in cells[k].items():
            r = loc
            while isinstance(r, T) and r.op == "fld": r = r.a[0]
            if r is not i.obj: continue
            v1 = cells[0].get(loc)
            if v1 is not None and v1.op not in ("ptr", "vec", "rec") and reads(v1, {m.va}) and v is not None:
                e = [e for e in raws[k] if e.kind == "set" and e.base is loc]
                c.req(bool(e), "refresh", "%s: %s" % (nm, loc), w, "a scalar computed from the matrix is not computed again")
        kept = named(runs[k])
        # nothing the previous computation left is read before it is assigned again
        for b2 in ren:
            if b2 in fresh: continue
            inst = "%s: %s" % (nm, next(str(l).split(".")[-1] for l, x in members.items() if x is ren[b2]))
            parts, bad, unsure = set(), None, None
            for s in runs[k]:
                rd = any(reads(t, {b2}) for t in terms(s)[1:] + [n for n, L in s.rep]) or reads(s.val, {b2})
                if s.base is not b2:
                    if rd and not parts >= set(PARTS): bad = bad or s
                    continue
                if rd and not parts >= set(PARTS):
                    e = None if s.rep else entries(copy.copy(s), m)
                    # scaling what has just been assigned
                    if not (e is not None and all(need(v, q_, b2, m) <= parts for q_, v in e.vals.items())):
                        if s.opaque(): unsure = s
                        else: bad = bad or s
                if s.guards or s.rep: continue
                if elem_cover(s, m, b2): parts |= set(PARTS); continue
                e = entries(copy.copy(s), m)
                if e is not None: parts |= set(e.vals)
            if bad is not None: c.bad("carry-over", inst, bad.e.where(), "a recomputation reads this array before assigning it, so the previous computation's values influence the result")
            elif unsure is not None: c.und("carry-over", inst, unsure.e.where(), "not followed")
            else: c.ok("carry-over", inst, w)
        # the values are those of a first computation, from the present matrix
        for b2, b in ren.items():
            mine = [s for s in runs[k] if s.base is b2]
            first = [s for s in runs[0] if s.base is b]
            used = set()
            inst = "%s: %s" % (nm, next(str(l).split(".")[-1] for l, x in members.items() if x is b))
            bad = None
            keys1 = [key(s, scratch(raws[0], set(members.values()) | kept)) for s in first]
            for s in mine:
                kk = key(s, {**scratch(raws[k], set(ren)), **ren})
                if kk in keys1: used.add(keys1.index(kk))
                elif s.base in fresh and opaque_source(s.val) and shape(kk) in [shape(x) for x in keys1]: used.add([shape(x) for x in keys1].index(shape(kk)))
                else: bad = bad or s
            if bad is not None:
                (c.und if bad.opaque() else c.bad)("same-formula", inst, bad.e.where(), "recomputation stores %r, which the first computation does not" % bad); continue
            # statements of the first computation only: set-up that is assigned again before use
            miss = [first[x] for x in range(len(first)) if x not in used]
            miss = [s for s in miss if reads(s.val, {m.va}) or any(reads(s.val, {x}) for x in S1)]
            full = False
            if miss:
                if any(elem_cover(s, m, b2) for s in mine): full = True
                elif b2 is lu(raws[0], m, bs):
                    parts, stale = set(), False
                    for s in mine:
                        e = None if s.rep else entries(copy.copy(s), m)
                        if s.rep or (e is None): break
                        if any(reads(v, {b2}) for p_, v in e.vals.items()) and not set(e.vals) <= {"L"}: break
                        parts |= set(e.vals)
                    full = parts >= set(PARTS)
            if miss and not full:
                (c.und if any(s.opaque() for s in mine) else c.bad)("same-formula", inst, miss[0].e.where(), "values assigned from the matrix at %s by the first computation are not assigned again, so a later computation starts from what the previous one left" % miss[0].e.where())
            else: c.ok("same-formula", inst, mine[-1].e.where())


def named(ss):
    """arrays named by the statements of a computation"""
    out = set()
    for s in ss:
        out.add(s.base)
        for t in terms(s) + [n for n, L in s.rep]: out |= {x.a[0] for x in walk(t) if x.op in ("load", "mload")}
    return out


def need(v, p, b, m):
    """parts of array b that must hold values before v can be assigned to an entry of part p"""
    if not reads(v, {b}): return set()
    own = m.blk(b, J_)
    return {p} if not reads(subst(v, {own: ZERO}), {b}) else set(PARTS)


def elem_cover(s, m, b):
    """the statement assigns a whole array, possibly in fixed-size pieces"""
    if mentions(s.val, b) or s.guards or s.rep: return False
    e = elementwise(s)
    if e is not None: return True
    k = ONE
    for x in reversed(range(len(s.data))):
        if coef_of(s.off, D[x]) is not k: return False
        if x: k = mul(k, s.data[x][0])
    off = s.off
    for x in range(len(s.data)): off = sub(off, mul(coef_of(s.off, D[x]), D[x]))
    return len(s.data) > 1 and off is ZERO and numval(k) is not None


def lu(effs, m, bs):
    size = mul(num(8 * bs * bs), load(m.bp, m.n))
    return next((e.base for e in effs if e.kind == "alloc" and e.val is size), None)


def scratch(effs, keep):
    """names for the arrays one computation allocates for itself, equal in every computation"""
    seen, out = {}, {}
    for e in effs:
        if e.kind != "alloc" or e.base in keep or e.base in out: continue
        l = str(e.base).split("@")[-1].split(":")[0]
        seen[l] = seen.get(l, 0) + 1
        out[e.base] = mk("sym", "$scratch.%s.%d" % (l, seen[l]))
    return out


def key(s, ren):
    """a statement up to the identity of arrays allocated by this computation"""
    f = lambda t: subst(t, ren) if ren else t
    return (f(s.base), f(s.off), f(s.val), tuple((f(n), d) for n, d in s.data), tuple(f(g) for g in s.guards), tuple(f(n) for n, L in s.rep))


if __name__ == "__main__":
    main(check, "P12", "Effects of three successive computations on one object, for every class, block size, scaling and initial-guess choice: every member array whose contents depend on the matrix values is written again from the current values, by the same statements, set-up-only statements being overwritten in full; storage is reused or released before it is replaced.",
         ["the sparsity pattern stays the same between computations (documented)", "initial guess 'none' is documented to continue from the previous factor and is excluded"])
