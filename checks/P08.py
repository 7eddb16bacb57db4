"""Asynchronous sweeps: every component is published by one store of its final value per iteration."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from races import *
from ilu import Ilu

RULE = "single-publication"
CFG = ((1, 0), (4, 0), (5, 0), (4, 1))
ASYNC = {"gs": ("apply", "apply_relax"), "sgs": ("apply", "apply_relax"), "cscbgs": ("apply",), "ilu0": ("compute", "apply"),
         "sapilu0": ("compute", "apply"), "sfilu0": ("compute", "apply"), "async_level_ilu0": ("compute",)}


def check(c, p):
    jobs = []
    for prec in ASYNC:
        for bs, stor in CFG:
            if "ilu" in prec:
                for sc in (False, True): jobs.append((entry, prec, bs, stor, dict(apply_inittype=1, fact_inittype=1, scale=sc, compute_precinfo=False)))
            else: jobs.append((entry, prec, bs, stor, dict(apply_inittype=1)))
    c.par(p, jobs)
    c.par(p, [(alone, f["key"]) for f in p.funcs.values() if "body" in f and f["n"] == "apply" and "ReorderedAsync" in f["q"]])
    c.need(RULE, 20)


def entry(c, p, prec, bs, stor, kw):
    i = Inst(p, prec, bs, stor, **kw)
    if i.obj is None: return
    if "ilu" in prec:
        u = Ilu(p, prec, bs, stor, **kw)
        i = u.i
        runs = [("compute", u.runs[0])]
    else: runs = [("compute", i.call("compute"))]
    c.used(i.I)
    runs.append(("apply", i.call("apply", R, Z)))
    if "apply_relax" in ASYNC[prec]:
        setparams(i)
        runs.append(("apply_relax", i.call("apply_relax", R, Z)))
    for what, effs in runs:
        if what in ASYNC[prec]: regions(c, i.I, effs, "%s, %s" % (i.name, what))


def alone(c, p, key):
    f = next(x for x in p.funcs.values() if x["key"] == key)
    I, st = Interp(p, budget=400000), State()
    I.run(f, this=mk("obj", "this"), cls=f.get("cls"), st=st)
    c.used(I)
    regions(c, I, I.eff, f["fn"].replace("blasted::", "")[:80])


def regions(c, I, effs, name):
    """threaded loops that read what they write (in-place sweeps)"""
    for r in collect(I, effs):
        if r.L is None or r.P is None or active(r.P) is False or "for" not in words(r.o): continue
        W, Rd = {}, set()
        for e, k in r.ev:
            if r.L not in e.ctx or e.kind not in ("store", "read"): continue
            if private(I, r, e.base, e): continue
            if e.kind == "read": Rd.add(e.base)
            elif not atomic(e, r): W.setdefault(e.base, []).append(e)
        for base, ws in W.items():
            # a sweep target: the loop reads it at places of other iterations
            first = owner(r, ws[0], ws[0].off, bwidth(I, ws[0], base))
            oth = [e for e, k in r.ev if e.kind == "read" and e.base is base]
            if all(first is not None and same(first, owner(r, e, e.off, bwidth(I, e, base))) for e in oth): continue
            publication(c, I, r, base, ws, "%s: %s" % (name, show(base)))


def conds(e, r):
    k = e.ctx.index(r.L)
    return [f.c for f in e.ctx[k + 1:] if isinstance(f, If)] + [x for x, kind in e.live if kind in ("cont", "brk", "ret")]


def exclusive(a, b): return any(x is not_(y) for x in a for y in b)


def publication(c, I, r, base, ws, inst):
    probs, und = [], []
    for e in ws:
        for f in inner_loops(r, e):
            if not mentions(e.off, f.T) and not (numval(f.n) == 1):
                # a store in a loop that runs several times for one component shows its intermediate values
                probs.append((e, "the store of %s[%s] is repeated by the loop at line %s: its intermediate values are visible to the other threads" % (show(base), show(e.off), f.line)))
                break
    for x in range(len(ws)):
        for y in range(x + 1, len(ws)):
            a, b = ws[x], ws[y]
            if exclusive(conds(a, r), conds(b, r)): continue
            v = overlap(r, a, b, bwidth(I, a, base), bwidth(I, b, base))
            if v is True: probs.append((a, "%s[%s] is stored at %s and again at %s in one iteration: a value that is not final is visible to the other threads" % (show(base), show(a.off), a.where(), b.where())))
            elif v is None: und.append((a, "stores at %s and %s of one iteration are not shown to be of different components" % (a.where(), b.where())))
    if probs:
        for e, m in probs[:3]: c.bad(RULE, inst, e.where(), m)
    elif und:
        for e, m in und[:3]: c.und(RULE, inst, e.where(), m)
    else: c.ok(RULE, inst, ws[0].where())


def overlap(r, a, b, wa, wb):
    """do the places of two stores of one iteration overlap: True, False or None"""
    ia, ib = interval(r, a, a.off, wa), interval(r, b, b.off, wb)
    if ia is None or ib is None: return None
    x, y = numval(sub(ib[0], ia[1])), numval(sub(ia[0], ib[1]))
    if (x is not None and x > 0) or (y is not None and y > 0): return False
    if a.off is b.off: return True
    if ia[0] is ib[0] and ia[1] is ib[1]: return True
    d = numval(sub(ia[0], ib[0]))
    if d is not None and numval(sub(ia[1], ia[0])) is not None: return True
    return None


if __name__ == "__main__":
    main(check, "P08", "In every threaded in-place sweep (a work-shared loop that reads the array it writes), each shared place is written by one store statement per iteration, not inside a loop that repeats it and not twice on one path.",
         ["distinct array arguments do not alias"])
