"""Inverse reordering and scaling undo the forward ones: the index map of every copy loop, per direction, mode and block size."""
import copy, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from ilu import *

RO, M, VEC = mk("obj", "ro"), mk("obj", "M"), mk("obj", "vec")
FWD, INV, ROW, COL = 0, 1, 0, 1
NAME = {FWD: "forward", INV: "inverse"}
DIRN = {ROW: "row", COL: "column"}
PERM = {ROW: ("rp", "irp"), COL: ("cp", "icp")}
SCALE = {ROW: "rowscale", COL: "colscale"}


def vecof(n): return mk("region", mk("fld", RO, n))
def sizeof(n): return mk("sym", mk("fld", vecof(n), "$size"))
def marr(n): return mk("deref", mk("fld", M, n))


def check(c, p):
    jobs = []
    for bs in (1, 4, 7):
        for mode in (FWD, INV):
            jobs.append((matrix_order, bs, mode))
            jobs.append((matrix_scale, bs, mode))
            for d in (ROW, COL):
                jobs.append((vector_order, bs, mode, d))
                jobs.append((vector_scale, bs, mode, d))
        jobs.append((ordering, bs))
        jobs.append((sorting, bs))
    for bs in (1, 3, 7):
        for mode in (FWD, INV): jobs.append((combined, bs, mode))
    jobs.append((reordered_ilu,))
    c.par(p, jobs)
    for r in ("vector-order", "vector-scaling", "matrix-scaling", "matrix-rows", "matrix-columns", "inverse-permutation", "combined-order", "reordered-ilu"): c.need(r, 1)


def find(p, suffix, npar):
    fs = [f for f in p.funcs.values() if f["fn"].endswith(suffix) and "body" in f and len(f["params"]) == npar]
    if not fs: raise AnalysisBroken("%s with %d parameters not found" % (suffix, npar))
    return fs[0]


def run(c, p, f, args, st=None):
    I = Interp(p, budget=500000)
    st = st or State()
    I.run(f, args=args, this=RO, cls=f.get("cls"), st=st)
    c.used(I)
    return I, st


def stores(I): return merge_guarded([canon(e) for e in unsearched(I) if e.kind == "store"])


def same(s, dest, val, data, counts=None):
    """the store is dest := val over the loops data, in any nesting order"""
    if len(s.data) != len(data): return False
    for perm in itertools.permutations(range(len(data))):
        m = {D[k]: mk("sym", "$p%d" % perm[k]) for k in range(len(data))}
        b = {mk("sym", "$p%d" % k): D[k] for k in range(len(data))}
        f = lambda t: subst(subst(t, m), b)
        ok = f(s.off) is dest and f(s.val) is val
        for k in range(len(data)):
            n = f(s.data[k][0])
            want = data[perm[k]]
            ok = ok and (n in want if isinstance(want, (tuple, set, list)) else n is want)
        if ok: return True
    return False


def plain_guards(s, names):
    """only under conditions about whether the vectors concerned are set"""
    szs = [sizeof(n) for n in names] + [ZERO]
    for g in s.guards:
        x = g.a[0] if g.op == "not" else g
        leaves = [y for y in walk(x) if y.op == "sym"]
        if not leaves or any(y not in szs for y in leaves): return False
    return True


def hdr(bs, mode, d=None): return "block size %d, %s%s" % (bs, NAME[mode], "" if d is None else " " + DIRN[d])


# ------------------------------------------------------------------ vectors
def vector_order(c, p, bs, mode, d):
    f = find(p, "Reordering<double, int, %d>::applyOrdering" % bs, 3)
    I, st = run(c, p, f, {0: ("v", mk("ptr", VEC, ZERO)), 1: ("v", num(mode)), 2: ("v", num(d))})
    ss = stores(I)
    inst, w = hdr(bs, mode, d), "%s:%s" % (f["file"], f["line"])
    P, IP = PERM[d]
    sz = [sizeof(P), sizeof(IP)]
    mine = [s for s in ss if s.base is VEC]
    if not mine:
        return c.bad("vector-order", inst, w, "the vector is not permuted at all") if not any(e.kind in ("call", "veccopy") for e in I.eff) else c.und("vector-order", inst, w, "not followed")
    if len(mine) > 1: return c.und("vector-order", inst, mine[1].e.where(), "several updates of the vector")
    s = mine[0]
    rd = [x for x in walk(s.val) if x.op in ("load", "mload")and x.a[0] not in (vecof(P), vecof(IP), vecof(PERM[1 - d][0]), vecof(PERM[1 - d][1]))]
    src = rd[0].a[0] if len(rd) == 1 else None
    if src is None or s.val is not rd[0] or rd[0].op != "load": return c.und("vector-order", inst, s.e.where(), "not a copy of single entries: %s" % show(s.val))
    if src is VEC: return c.bad("vector-order", inst, s.e.where(), "reads entries of the vector that this loop has already overwritten")
    # the source is a copy of the whole vector
    fill = [t for t in ss if t.base is src]
    if not (len(fill) == 1 and whole(fill[0]) and whole(fill[0])[1] is load(VEC, D[0]) and fill[0].e.seq < s.e.seq): return c.und("vector-order", inst, s.e.where(), "the source is not recognised as a copy of the vector")
    if whole(fill[0])[0] not in [scale(z, bs) for z in sz]: return c.bad("vector-order", inst, fill[0].e.where(), "copies %s entries of the vector, required %s" % (whole(fill[0])[0], scale(sz[0], bs)))
    q1, q2 = (P, IP) if mode == FWD else (IP, P)
    in_ = (lambda t: add(scale(t, bs), D[1])) if bs > 1 else lambda t: t
    data = [sz] + ([num(bs)] if bs > 1 else [])
    gather = (in_(D[0]), load(src, in_(load(vecof(q1), D[0]))))
    scatter = (in_(load(vecof(q2), D[0])), load(src, in_(D[0])))
    good = same(s, *gather, data) or same(s, *scatter, data)
    if good and not plain_guards(s, PERM[d]): c.bad("vector-order", inst, s.e.where(), "happens only under %s" % s.guards); return
    if good: c.ok("vector-order", inst, s.e.where())
    elif s.opaque(): c.und("vector-order", inst, s.e.where(), "not followed: %r" % s)
    else: c.bad("vector-order", inst, s.e.where(), "found [%s] := %s over %s; required [%s] := %s (or its inverse as a scatter)" % (show(s.off), show(s.val), s.data, show(gather[0]), show(gather[1])))


def vector_scale(c, p, bs, mode, d):
    f = find(p, "ReorderingScaling<double, int, %d>::applyScaling" % bs, 3)
    I, st = run(c, p, f, {0: ("v", mk("ptr", VEC, ZERO)), 1: ("v", num(mode)), 2: ("v", num(d))})
    inst, w = hdr(bs, mode, d), "%s:%s" % (f["file"], f["line"])
    S = SCALE[d]
    in_ = (lambda t: add(scale(t, bs), D[1])) if bs > 1 else lambda t: t
    own = load(VEC, in_(D[0]))
    sc = load(vecof(S), D[0])
    want = mul(own, sc if mode == FWD else inv(sc))
    scaled(c, "vector-scaling", inst, w, I, VEC, in_(D[0]), want, [sizeof(S)] + ([num(bs)] if bs > 1 else []), [S])


def scaled(c, rule, inst, w, I, base, off, want, data, names, which=None):
    mine = [s for s in stores(I) if s.base is base]
    if which is not None: mine = [s for s in mine if mentions(s.val, vecof(which))] or mine[:0]
    if not mine:
        others = [s for s in stores(I) if s.base is base]
        c.bad(rule, inst, w, "the %s factors are not applied" % names[0]) if not any(e.kind == "call" for e in I.eff) else c.und(rule, inst, w, "not followed")
        return
    if len(mine) > 1: return c.bad(rule, inst, mine[1].e.where(), "scaled more than once") if not any(s.opaque() for s in mine) else c.und(rule, inst, mine[1].e.where(), "not followed")
    s = mine[0]
    if same(s, off, want, data):
        c.req(plain_guards(s, names), rule, inst, s.e.where(), "happens only under %s" % s.guards)
    elif s.opaque() or s.mat: c.und(rule, inst, s.e.where(), "not followed: %r" % s)
    else: c.bad(rule, inst, s.e.where(), "found [%s] := %s over %s; required [%s] := %s" % (show(s.off), show(s.val), s.data, show(off), show(want)))


# ------------------------------------------------------------------ matrices
def matrix_scale(c, p, bs, mode):
    f = find(p, "ReorderingScaling<double, int, %d>::applyScaling" % bs, 2)
    I, st = run(c, p, f, {0: ("lv", M), 1: ("v", num(mode))})
    w = "%s:%s" % (f["file"], f["line"])
    bp, ci, va = marr("browptr"), marr("bcolind"), marr("vals")
    bs2 = bs * bs
    pos = add(load(bp, D[0]), D[1])
    off = add(scale(pos, bs2), D[2]) if bs > 1 else pos
    data = [mk("sym", mk("fld", M, "nbrows")), sub(load(bp, add(D[0], ONE)), load(bp, D[0]))] + ([num(bs2)] if bs > 1 else [])
    # inner loops may be flattened into one over all scalars of a row
    for S, ix in (("rowscale", D[0]), ("colscale", load(ci, pos))):
        sc = load(vecof(S), ix)
        want = mul(load(va, off), sc if mode == FWD else inv(sc))
        inst = "%s, %s" % (hdr(bs, mode), S)
        mine = [s for s in stores(I) if s.base is va and mentions(s.val, vecof(S))]
        if bs > 1 and len(mine) == 1 and len(mine[0].data) == 2 and S == "rowscale":
            o2 = add(scale(load(bp, D[0]), bs2), D[1])
            scaled(c, "matrix-scaling", inst, w, I, va, o2, mul(load(va, o2), sc if mode == FWD else inv(sc)), [data[0], scale(data[1], bs2)], [S], S)
        else: scaled(c, "matrix-scaling", inst, w, I, va, off, want, data, [S], S)


def ordering(c, p, bs):
    """setOrdering stores the permutation and its inverse"""
    f = find(p, "Reordering<double, int, %d>::setOrdering" % bs, 3)
    I, st = run(c, p, f, {0: ("v", mk("ptr", mk("obj", "r"), ZERO)), 1: ("v", mk("ptr", mk("obj", "c"), ZERO)), 2: ("v", mk("sym", "len"))})
    perms(c, I, [(PERM[ROW], mk("obj", "r")), (PERM[COL], mk("obj", "c"))], mk("sym", "len"), "setOrdering, block size %d" % bs, "%s:%s" % (f["file"], f["line"]))


def perms(c, I, what, n, inst, w):
    ss = stores(I)
    for (P, IP), src in what:
        for nm, wanted in ((P, [(D[0], load(src, D[0]))]), (IP, [(load(src, D[0]), D[0]), (load(vecof(P), D[0]), D[0])])):
            mine = [s for s in ss if s.base is vecof(nm)]
            i2 = "%s: %s" % (inst, nm)
            if len(mine) != 1:
                (c.und if any(e.kind in ("call", "veccopy", "fill") for e in I.eff) or len(mine) > 1 else c.bad)("inverse-permutation", i2, w, "%d updates found" % len(mine)); continue
            s = mine[0]
            if any(same(s, o, v, [[n, sizeof(P), sizeof(IP)]]) for o, v in wanted):
                c.req(not s.guards or all(mentions(g, src) for g in s.guards), "inverse-permutation", i2, s.e.where(), "happens only under %s" % s.guards)
            elif s.opaque(): c.und("inverse-permutation", i2, s.e.where(), "not followed")
            else: c.bad("inverse-permutation", i2, s.e.where(), "found [%s] := %s over %s" % (show(s.off), show(s.val), s.data))


def matrix_order(c, p, bs, mode):
    f = find(p, "Reordering<double, int, %d>::applyOrdering" % bs, 2)
    I, st = run(c, p, f, {0: ("lv", M), 1: ("v", num(mode))})
    w = "%s:%s" % (f["file"], f["line"])
    rows(c, I, bs, mode, w)
    columns(c, I, bs, mode, w)
    diagonals(c, I, bs, mode, w)


def rows(c, I, bs, mode, w):
    inst = hdr(bs, mode)
    bp, ci, va = marr("browptr"), marr("bcolind"), marr("vals")
    bs2, n = bs * bs, mk("sym", mk("fld", M, "nbrows"))
    effs = [e for e in I.eff if e.kind == "store" or (e.kind == "set" and e.base.op == "fld" and e.base.a[1] == "first" and any(isinstance(x, Loop) for x in e.ctx))]
    ss = stores(I)
    rp, irp = vecof("rp"), vecof("irp")
    colp = [vecof("cp"), vecof("icp")]
    row = [s for s in ss if any(mentions(g, sizeof("rp")) or mentions(g, sizeof("irp")) for g in s.guards)]
    if not row: row = [s for s in ss if mentions_any(s, (rp, irp))]
    if not row: return c.bad("matrix-rows", inst, w, "rows are not moved") if not any(e.kind == "call" for e in I.eff) else c.und("matrix-rows", inst, w, "not followed")
    bad = [s for s in row if s.base in (bp, ci, va) and not plain_guards(s, PERM[ROW])]
    if bad: return c.bad("matrix-rows", inst, bad[0].e.where(), "happens only under %s" % bad[0].guards)
    q_g, q_s = ("rp", "irp") if mode == FWD else ("irp", "rp")      # gather: new row i is old row q_g[i]; scatter: old row i becomes new row q_s[i]
    # --- form 1: rows gathered in order into temporaries and copied back
    t = mk("sym", "$k")
    def length(r): return sub(load(bp, add(r, ONE)), load(bp, r))
    def gpos(q): return sum_(t, D[0], length(load(vecof(q), t)))
    res = {}
    for arr in (bp, ci, va):
        back = [s for s in row if s.base is arr]
        res[arr] = back
    lists = [s for s in row if s.base not in (bp, ci, va) and container(s.base) is not None]
    if not lists:
        for arr, nm in ((bp, "row pointers"), (ci, "column indices"), (va, "values")):
            i2 = "%s: %s" % (inst, nm)
            back = res[arr]
            if not back: c.bad("matrix-rows", i2, w, "not moved with the rows"); continue
            mp = [through(s, row) for s in back]
            if any(x is None for x in mp) or len(mp) != 1 and arr is not bp: c.und("matrix-rows", i2, back[0].e.where(), "not followed: %r" % back[0]); continue
            good = False
            for off, val, data, s in mp:
                fake = copy.copy(s); fake.off, fake.val, fake.data = off, val, data
                g = gpos(q_g)
                if arr is bp:
                    good = good or same(fake, D[0], g, [[n, sizeof("rp")]]) or same(fake, add(D[0], ONE), subst(g, {D[0]: add(D[0], ONE)}), [[n, sizeof("rp")]])
                    continue
                o_, s_ = add(g, D[1]), add(load(bp, load(vecof(q_g), D[0])), D[1])
                ln = length(load(vecof(q_g), D[0]))
                if arr is va and bs > 1: good = same(fake, add(scale(add(g, D[1]), bs2), D[2]), load(va, add(scale(s_, bs2), D[2])), [[n, sizeof("rp")], ln, num(bs2)]) or \
                    same(fake, add(scale(g, bs2), D[1]), load(va, add(scale(load(bp, load(vecof(q_g), D[0])), bs2), D[1])), [[n, sizeof("rp")], scale(ln, bs2)])
                else: good = same(fake, o_, load(arr, s_), [[n, sizeof("rp")], ln])
            off, val, data, s = mp[0]
            if good: c.ok("matrix-rows", i2, s.e.where())
            elif any(m[3].opaque() for m in mp): c.und("matrix-rows", i2, s.e.where(), "not followed")
            else: c.bad("matrix-rows", i2, s.e.where(), "found [%s] := %s over %s; new row i must be old row %s[i]" % (show(off), show(val), data, q_g))
        # the copy covers every entry
        return
    # --- form 2: a list of rows, filled by scatter, copied back in order
    cont = container(lists[0].base)[0]
    def cell(r): return mk("elem", cont, r)
    fills = [(canon_like(s.e).base, s.off, s.val, s.data, s.e) for s in lists]
    for e in effs:
        if e.kind == "set":
            s = canon_like(e)
            fills.append((s.base, None, s.val, s.data, s.e))
    i2 = inst + ": rows into the list"
    good, n1 = True, 0
    for base, off, val, data, e in fills:
        r = container(base)
        if r is None or r[0] is not cont: continue
        n1 += 1
        if isopaque(r[1]) or opaque(val): c.und("matrix-rows", i2, e.where(), "not followed"); good = False; continue
        ok = r[1] is load(vecof(q_s), D[0]) and len(data) >= 2 and data[0][0] in (n, sizeof("rp")) and data[1][0] is length(D[0]) and r[2] is D[1]
        src = load(ci, add(load(bp, D[0]), D[1])) if off is None else load(va, add(scale(add(load(bp, D[0]), D[1]), bs2), D[2] if bs > 1 else ZERO))
        ok = ok and val is src and (off is None or off is (D[2] if bs > 1 else ZERO))
        if not ok: c.bad("matrix-rows", i2, e.where(), "found %s[%s] := %s over %s; old row i must become row %s[i]" % (base, off, show(val), data, q_s)); good = False
    if good and n1: c.ok("matrix-rows", i2, w)
    i2 = inst + ": rows back"
    good = True
    for arr in (bp, ci, va):
        for s in res[arr]:
            if s.off is ZERO and arr is bp and not s.data: good = good and s.val is ZERO; continue
            z = [x for x in walk(s.val) if x.op == "load" and container(x.a[0])] + [x for x in walk(s.val) if container(x)]
            if s.opaque() and not z: c.und("matrix-rows", i2, s.e.where(), "not followed"); good = None; break
            sz = [x for x in walk(s.val) if x.op == "sym" and isinstance(x.a[0], T) and x.a[0].op == "fld" and x.a[0].a[1] == "$size"]
            if arr is bp:
                ok = s.off is add(D[0], ONE) and len(s.data) == 1 and s.data[0][0] in (n, sizeof("rp")) and len(sz) == 1 and s.val is add(sz[0], load(bp, D[0])) and mentions(sz[0], D[0]) and row_index(sz[0], cont) is D[0]
            else:
                r = [container(x) or container(x.a[0]) for x in z if x is not None]
                r = [x for x in r if x]
                o = add(load(bp, D[0]), D[1])
                if arr is va: o = add(scale(o, bs2), D[2] if bs > 1 else ZERO)
                ok = s.off is o and len(s.data) >= 2 and s.data[0][0] in (n, sizeof("rp")) and all(x[1] is D[0] and x[2] is D[1] for x in r) and bool(r)
                if arr is va: ok = ok and s.val.op == "load" and s.val.a[1] is (D[2] if bs > 1 else ZERO)
            if not ok: c.bad("matrix-rows", i2, s.e.where(), "found %s[%s] := %s over %s" % (arr, show(s.off), show(s.val), s.data)); good = None; break
        if good is None: break
        if not res[arr]: c.bad("matrix-rows", i2, w, "%s are not copied back" % arr); good = None; break
    if good: c.ok("matrix-rows", i2, w)
    elif good is False: c.bad("matrix-rows", i2, w, "the row pointers do not start at 0")


def canon_like(e):
    """canonical form of an assignment to a structure member inside loops: the place it is assigned is part of the pattern"""
    class X: pass
    s = X()
    m, data = {}, []
    for L in e.loops():
        m[L.T] = D[len(data)]; data.append((L.n, L.dir))
    s.base, s.val, s.e = subst(e.base, m), subst(e.val, m), e
    s.data = [(subst(n, m), d) for n, d in data]
    return s


def mentions_any(s, xs): return any(mentions(t, x) for t in [s.val, s.off] + [n for n, d in s.data] for x in xs)


def container(b):
    """rows[r][j](.member): (rows, r, j)"""
    x = b
    while isinstance(x, T):
        if x.op in ("elem", "load"):
            y = x.a[0]
            if isinstance(y, T) and y.op == "region" and y.a[0].op in ("elem", "load"): return y.a[0].a[0], y.a[0].a[1], x.a[1]
        if x.op in ("fld", "region", "deref", "sym", "load", "elem") and isinstance(x.a[0], T): x = x.a[0]
        else: return None
    return None


def whole(s):
    t = copy.copy(s); t.guards = [g for g in s.guards if not any(y.op == "sym" and isinstance(y.a[0], T) and y.a[0].op == "fld" and y.a[0].a[1] == "$size" for y in walk(g))]
    return elementwise(t)


def row_index(t, cont):
    for x in walk(t):
        if x.op in ("elem", "load") and x.a[0] is cont: return x.a[1]
    return None


def through(s, ss):
    """a store whose value comes through a temporary: the combined map (place, value, loops, statement)"""
    rd = [x for x in walk(s.val) if x.op == "load" and not any(x.a[0] is y for y in (marr("browptr"), marr("bcolind"), marr("vals"))) and x.a[0] not in [vecof(q) for q in ("rp", "irp", "cp", "icp")]]
    if not rd: return s.off, s.val, s.data, s
    if len(rd) != 1 or s.val is not rd[0]: return None
    tmp = [t for t in ss if t.base is rd[0].a[0] and len(t.data) > 0]
    if len(tmp) != 1: return None
    t = tmp[0]
    ew, et = whole(s), whole(t)
    if ew is not None and ew[1].op == "load" and ew[1].a[1] is D[0]: return t.off, t.val, t.data, t          # copied back as it is
    if et is not None and et[1].op == "load" and et[1].a[1] is D[0]: return s.off, load(et[1].a[0], rd[0].a[1]), s.data, s
    return None


def columns(c, I, bs, mode, w):
    inst = hdr(bs, mode)
    ci, bp, n = marr("bcolind"), marr("browptr"), mk("sym", mk("fld", M, "nbrows"))
    ss = stores(I)
    mine = [s for s in ss if s.base is ci and any(mentions(s.val, vecof(q)) for q in PERM[COL] + PERM[ROW]) and not mentions_any_off(s, ("rp", "irp"))]
    if len(mine) != 1: return (c.und if mine or any(e.kind == "call" for e in I.eff) else c.bad)("matrix-columns", inst, w, "%d column renamings found" % len(mine))
    s = mine[0]
    q = "icp" if mode == FWD else "cp"
    v = s.val
    if not (v.op == "load" and v.a[0] in [vecof(x) for x in ("rp", "irp", "cp", "icp")]): return c.und("matrix-columns", inst, s.e.where(), "not followed: %s" % show(v))
    pos = add(load(bp, D[0]), D[1])
    inner = v.a[1]
    src = inner.a if inner.op == "load" else None
    errs = []
    if v.a[0] is not vecof(q): errs.append("renamed by %s, required %s" % (v.a[0], q))
    if src is None: return c.und("matrix-columns", inst, s.e.where(), "not followed: %s" % show(v))
    if src[0] is ci:
        if src[1] is not s.off: errs.append("entry %s takes the column of entry %s" % (s.off, src[1]))
    else:
        t = [t for t in ss if t.base is src[0]]
        if len(t) != 1 or not (same(t[0], D[1], load(ci, pos), [[n], sub(load(bp, add(D[0], ONE)), load(bp, D[0]))]) or same(t[0], pos, load(ci, pos), [[n], sub(load(bp, add(D[0], ONE)), load(bp, D[0]))]) or (whole(t[0]) and whole(t[0])[1] is load(ci, D[0]))):
            return c.und("matrix-columns", inst, s.e.where(), "the source is not recognised as a copy of the columns of the row: %s" % t)
    if src[0] is not ci and src[1] is not D[1] and src[1] is not s.off: errs.append("entry %s of the row takes the column of entry %s" % (D[1], src[1]))
    good = same(s, pos, v, [[n], sub(load(bp, add(D[0], ONE)), load(bp, D[0]))]) or same(s, D[0], v, [[load(bp, n)]])
    if not good: errs.append("found [%s] over %s" % (show(s.off), s.data))
    if not plain_guards(s, PERM[COL]): errs.append("happens only under %s" % s.guards)
    if errs: c.bad("matrix-columns", inst, s.e.where(), "; ".join(errs))
    else: c.ok("matrix-columns", inst, s.e.where())
    pairs(c, ss, inst, bs, ci, marr("vals"), s)


def mentions_any_off(s, names): return any(mentions(t, vecof(q)) for t in [s.off] + [n for n, d in s.data] for q in names)


def pairs(c, ss, inst, bs, ci, va, after=None):
    """whatever exchanges two column indices exchanges the two value blocks with them"""
    bs2 = bs * bs
    cs = [s for s in ss if s.base is ci and (after is None or s.e.seq > after.e.seq) and s.val.op == "load" and s.val.a[0] is ci]
    vs = [s for s in ss if s.base is va and (after is None or s.e.seq > after.e.seq)]
    tmp = [s for s in ss if s.base not in (ci, va) and s.val.op == "load" and s.val.a[0] is va and (after is None or s.e.seq > after.e.seq)]
    if not cs and not vs: return c.und("sort-pairs", inst, "", "no exchange found")
    w = (cs or vs)[0].e.where()
    def mv(s, b):
        k = [L for L in range(len(s.data)) if s.data[L][0] is num(bs2)]
        z = {D[max(k)]: ZERO} if k and b > 1 else {}
        return subst(s.off, z), subst(s.val, z)
    A = {(s.off, s.val.a[1]) for s in cs}
    B = set()
    for s in vs:
        o, v = mv(s, bs2)
        if v.op == "load" and v.a[0] is not va:
            t = [t for t in tmp if t.base is v.a[0]]
            if len(t) != 1: return c.und("sort-pairs", inst, s.e.where(), "not followed")
            o2, v2 = mv(t[0], bs2)
            if o2 is not ZERO or v.a[1] is not ZERO: return c.und("sort-pairs", inst, s.e.where(), "not followed")
            v = v2
        if not (v.op == "load" and v.a[0] is va): return c.und("sort-pairs", inst, s.e.where(), "not followed: %s" % show(v))
        B.add((o, v.a[1]))
    fr = TM.Fraction(1, bs2)
    B = {(scale(a, fr), scale(b, fr)) for a, b in B}
    if not A or not B: c.bad("sort-pairs", inst, w, "only %s are moved" % ("column indices" if A else "values")); return
    if A == B: c.ok("sort-pairs", inst, w)
    elif any(s.opaque() for s in cs + vs): c.und("sort-pairs", inst, w, "not followed")
    else: c.bad("sort-pairs", inst, w, "column indices move %s, values move %s" % (sorted(map(str, A)), sorted(map(str, B))))


def sorting(c, p, bs):
    f = find(p, "sortBlockInnerDimension<double, int, %d>" % bs, 3)
    ci, va = mk("obj", "ci"), mk("obj", "va")
    I, st = run(c, p, f, {0: ("v", mk("sym", "N")), 1: ("v", mk("ptr", ci, ZERO)), 2: ("v", mk("ptr", va, ZERO))})
    pairs(c, stores(I), "sorting, block size %d" % bs, bs, ci, va)


def diagonals(c, I, bs, mode, w):
    inst = hdr(bs, mode)
    bp, ci, dg, be = marr("browptr"), marr("bcolind"), marr("diagind"), marr("browendptr")
    ss = stores(I)
    last = max([s.e.seq for s in ss if s.base in (bp, ci)] or [0])
    n = mk("sym", mk("fld", M, "nbrows"))
    d = [s for s in ss if s.base is dg]
    pos = add(load(bp, D[0]), D[1])
    for arr, nm in ((dg, "diagonal positions"), (be, "row ends")):
        mine = [s for s in ss if s.base is arr]
        late = [s for s in mine if s.e.seq > last]
        if not late:
            c.bad("diagonal-positions", "%s: %s" % (inst, nm), w, "not computed again after the entries have moved"); continue
        if arr is be: good = any(same(s, D[0], load(bp, add(D[0], ONE)), [[n]]) for s in late)
        else:
            good = False
            for s in late:
                if same(s, D[0], pos, [[n], sub(load(bp, add(D[0], ONE)), load(bp, D[0]))]) and any(g is eq(sub(load(ci, pos), D[0]), ZERO) for g in s.guards): good = True
        s = late[-1]
        if good: c.ok("diagonal-positions", "%s: %s" % (inst, nm), s.e.where())
        else: c.und("diagonal-positions", "%s: %s" % (inst, nm), s.e.where(), "not recognised: %r" % s)


# ------------------------------------------------------------------ combinations
def combined(c, p, bs, mode):
    f = find(p, "BSRMatrix<double, int, %d>::reorderScale" % bs, 2)
    I, st = run(c, p, f, {0: ("lv", mk("obj", "RS")), 1: ("v", num(mode))})
    inst, w = hdr(bs, mode), "%s:%s" % (f["file"], f["line"])
    seq = []
    for e in I.eff:
        if e.kind == "call" and e.name and e.name.split("::")[-1] in ("applyScaling", "applyOrdering"):
            seq.append((e.name.split("::")[-1], e))
    want = ["applyScaling", "applyOrdering"] if mode == FWD else ["applyOrdering", "applyScaling"]
    if [x for x, e in seq] != want: return c.bad("combined-order", inst, w, "performs %s, required %s" % ([x for x, e in seq], want))
    for x, e in seq:
        m = e.args[-1] if e.args else None
        if m is not num(mode): return c.bad("combined-order", inst, e.where(), "%s is called with mode %s" % (x, m))
        if any(isinstance(k, If) for k in e.ctx): return c.bad("combined-order", inst, e.where(), "%s happens only under a condition" % x)
    c.ok("combined-order", inst, w)


def reordered_ilu(c, p):
    fs = [f for f in p.funcs.values() if f["fn"].startswith("blasted::ReorderedAsyncILU0_SRPreconditioner<double, int>::") and "body" in f]
    by = {f["n"]: f for f in fs}
    if "compute" not in by or "apply" not in by: raise AnalysisBroken("ReorderedAsyncILU0_SRPreconditioner not found")
    obj = mk("obj", "ril")
    ro = mk("obj", "RO")
    I, st = Interp(p, budget=900000), State()
    st.cells[mk("fld", obj, "reord")] = mk("ptr", ro, ZERO)
    st.cells[mk("fld", obj, "factinittype")] = num(1)
    st.cells[mk("fld", obj, "applyinittype")] = num(1)
    st.cells[mk("fld", obj, "usescaling")] = TRUE
    for k in ("iluvals", "ytemp", "scale"): st.cells[mk("fld", obj, k)] = NULLP
    f = by["compute"]
    w = "%s:%s" % (f["file"], f["line"])
    I.run(f, this=obj, cls=f["cls"], st=st)
    c.used(I)
    mat, rs = mk("fld", obj, "mat"), mk("fld", obj, "rsmat")
    eff = list(I.eff)
    calls = [e for e in eff if e.kind == "call" and e.name and e.name.split("::")[-1] in ("compute", "applyOrdering", "applyScaling") and e.args and ro_of(e, ro)]
    names = [e.name.split("::")[-1] for e in calls]
    a = "ordering of the matrix"
    if "applyOrdering" not in names: c.bad("reordered-ilu", a, w, "the copied matrix is not reordered")
    else:
        e = calls[names.index("applyOrdering")]
        good = names.count("applyOrdering") == 1 and e.args[-1] is num(FWD) and refers(e.args, rs) and not any(isinstance(k, If) for k in e.ctx)
        c.req(good, "reordered-ilu", a, e.where(), "the stored copy must be reordered once, in forward mode: %s" % (e.args,))
        c.req("compute" in names and names.index("compute") < names.index("applyOrdering"), "reordered-ilu", "ordering computed first", e.where(), "the ordering is applied before it is computed from the matrix")
        # the copy is made before, everything else uses the copy
        arr = {k: st.cells.get(mk("fld", rs, k)) for k in ("browptr", "bcolind", "vals", "diagind")}
        new = {v.a[0] for v in arr.values() if v is not None and v.op == "ptr"}
        old = {mk("deref", mk("fld", mat, k)) for k in ("browptr", "bcolind", "vals", "diagind")}
        ss = [x for x in eff if x.kind == "store"]
        iv = st.cells.get(mk("fld", obj, "iluvals"))
        tgt = {x.a[0] for x in [iv, st.cells.get(mk("fld", obj, "scale"))] if x is not None and x.op == "ptr"}
        late = [x for x in ss if x.base in tgt and x.seq > e.seq]
        wrong = [x for x in late if any(y.op in ("load", "mload") and y.a[0] in {mk("deref", mk("fld", mat, "vals"))} for y in walk(x.val))]
        if not late: c.und("reordered-ilu", "factor from the reordered matrix", w, "no factor update found")
        else: c.req(not wrong and any(any(y.op in ("load", "mload") and arr["vals"] is not None and y.a[0] is arr["vals"].a[0] for y in walk(x.val)) for x in late), "reordered-ilu", "factor from the reordered matrix", (wrong or late)[0].where(), "the factor is computed from the matrix as it was before reordering")
        lists = [x for x in eff if x.kind in ("store", "set", "push") and x.seq > e.seq and x.val is not None and any(y.op in ("load", "mload") and y.a[0] in old - {mk("deref", mk("fld", mat, "vals"))} for y in walk(x.val))]
        before = [x for x in ss if x.base in new and x.seq < e.seq]
        lists = [x for x in lists if x.base not in new]
        c.req(not lists, "reordered-ilu", "position lists from the reordered matrix", lists[0].where() if lists else w, "uses the index arrays of the matrix as it was before reordering")
        c.req(bool(before) and all(any(x.base is arr[k].a[0] for x in before) for k in arr if arr[k] is not None and arr[k].op == "ptr"), "reordered-ilu", "copy before reordering", e.where(), "the matrix is not copied before it is reordered")
    # ---- application
    f = by["apply"]
    w = "%s:%s" % (f["file"], f["line"])
    for rowset in (True, False):
        I.eff = []
        st.live, st.dead = [], None
        s2 = copy.copy(st); s2.cells = dict(st.cells)
        for q in ("rp", "irp"):
            k = mk("fld", mk("region", mk("fld", ro, q)), "$size")
            s2.cells[k] = num(5) if rowset else ZERO
        R_, Z_ = mk("obj", "ra"), mk("obj", "za")
        I.run(f, args={0: ("v", mk("ptr", R_, ZERO)), 1: ("v", mk("ptr", Z_, ZERO))}, this=obj, cls=f["cls"], st=s2)
        eff = list(I.eff)
        nm = "application, row ordering %s" % ("set" if rowset else "not set")
        calls = [e for e in eff if e.kind == "call" and e.name and e.name.split("::")[-1] == "applyOrdering"]
        zs = [x for x in eff if x.kind == "store" and x.base is Z_]
        col = [e for e in calls if e.args and refers(e.args, Z_)]
        rowc = [e for e in calls if e not in col]
        if not zs: c.und("reordered-ilu", nm, w, "no solution update found"); continue
        lastz = max(x.seq for x in zs)
        good = len(col) == 1 and col[0].args[-2] is num(INV) and col[0].args[-1] is num(COL) and col[0].seq > lastz and not any(isinstance(k, If) for k in col[0].ctx)
        c.req(good, "reordered-ilu", nm + ": solution", col[0].where() if col else w, "the solution must be returned to the original ordering by the inverse column ordering, once, at the end: %s" % [e.args for e in col])
        rhs = {y.a[0] for x in eff if x.kind == "store" and x.base is not Z_ for y in walk(x.val) if y.op in ("load", "mload")}
        if rowset:
            if not rowc: c.bad("reordered-ilu", nm + ": right-hand side", w, "the right-hand side is not reordered"); continue
            e = rowc[0]
            good = len(rowc) == 1 and e.args[-2] is num(FWD) and e.args[-1] is num(ROW)
            c.req(good, "reordered-ilu", nm + ": right-hand side", e.where(), "the right-hand side must be reordered once by the forward row ordering: %s" % (e.args,))
            late = [x for x in eff if x.kind in ("store",) and x.seq > e.seq and any(y.op in ("load", "mload") and y.a[0] is R_ for y in walk(x.val))]
            c.req(not late, "reordered-ilu", nm + ": solves the reordered system", late[0].where() if late else w, "the solve reads the right-hand side in its original order")
            tmpb = [x.a[0] for x in e.args if isinstance(x, T) and x.op == "ptr" and x.a[0] is not ro]
            cp = [s for s in [canon(x) for x in eff if x.kind == "store" and x.base in tmpb and x.seq < e.seq]]
            ok = any(whole(s) and whole(s)[1] is load(R_, D[0]) for s in cp)
            (c.ok if ok else c.und)("reordered-ilu", nm + ": copy of the right-hand side", cp[0].e.where() if cp else w, *([] if ok else ["not recognised"]))


def ro_of(e, ro): return any(isinstance(x, T) and mentions(x, ro) for x in e.args)


def refers(args, o): return any(isinstance(x, T) and mentions(x, o) for x in args)


if __name__ == "__main__":
    main(check, "P17", "For every block size built, ordering direction and mode, the index map of each copy or update loop of the reordering and scaling "
         "routines is extracted from the source (place, value, loop ranges, conditions) and compared with the map the documented permutation or scaling requires, as a gather or as a scatter; "
         "the inverse permutation stored with an ordering, the pairing of column indices with value blocks when entries are sorted, the order and mode of the combined operations, and the use of "
         "the reordered copy by the reordered factorisation are checked in the same way.",
         ["permutation vectors are permutations of 0..n-1 and scaling factors are nonzero", "cp/icp and rp/irp have equal lengths"])
