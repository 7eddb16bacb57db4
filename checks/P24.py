#!/usr/bin/env python3
"""P24: the reported factor remainder and diagonal-dominance figures follow their formulas, and asking for them changes nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from ilu import *
import interp as IN

REM, DOM, ORD, SAME, NAME = "remainder-formula", "dominance-formula", "measured-at", "no-side-effect", "named-index"
ACC = ("prec_remainder_norm", "prec_rem_initial_norm", "upper_min_diag_dom", "upper_avg_diag_dom", "lower_min_diag_dom", "lower_avg_diag_dom")
DESCR = {"factor_remainder": 0, "factor_init_rem": 1, "upperF_min_dgdom": 2, "upperF_avg_dgdom": 3, "lowerF_min_dgdom": 4, "lowerF_avg_dgdom": 5}
W = "src/async_ilu_factor.cpp"


def check(c, p):
    idx = names(c, p)
    c.par(p, [(one_cfg, prec, bs, stor, sc, idx) for prec in ILUS for bs, stor in VARIANTS for sc in (False, True)])
    c.need(REM, 40)
    c.need(DOM, 80)
    c.need(SAME, 20)


def names(c, p):
    """the slot each accessor refers to, and the text printed for it"""
    idx = {}
    for k, a in enumerate(ACC):
        for f in p.funcs.values():
            if not f["q"].endswith("PrecInfo::" + a) or not f.get("body"): continue
            I = IN.Interp(p, budget=20000)
            o = mk("obj", "pi")
            r = I.run(f, this=o, st=IN.State())
            off = r.a[0].a[1] if r is not None and r.op == "lv" and r.a[0].op == "elem" else r.a[1] if r is not None and r.op == "load" else None
            n = numval(off) if off is not None else None
            if n is None: c.und(NAME, a, p.loc(f), "no fixed slot: %s" % r); continue
            if a in idx and idx[a] != n: c.bad(NAME, a, p.loc(f), "the two versions of the accessor refer to different slots")
            idx[a] = int(n)
    if len(set(idx.values())) != len(idx): c.bad(NAME, "accessors", "include/preconditioner_diagnostics.hpp", "two figures share a slot: %s" % idx)
    g = next((g for n, g in p.globals.items() if n.endswith("PrecInfoList::descr")), None)
    txt = strings(g.get("init")) if g else []
    if len(txt) != 6: c.und(NAME, "descr", "src/solverfactory.cpp", "no list of six descriptions found")
    else:
        for k, t in enumerate(txt):
            if t not in DESCR: c.und(NAME, "descr[%d]" % k, "src/solverfactory.cpp", "unknown description %s" % t); continue
            a = ACC[DESCR[t]]
            c.req(idx.get(a) == k, NAME, "descr[%d]" % k, "src/solverfactory.cpp", "slot %d is described as %s but holds another figure (%s is slot %s)" % (k, t, a, idx.get(a)))
    return idx


def strings(x):
    out = []
    if isinstance(x, dict):
        if x.get("k") in ("str", "string") and isinstance(x.get("v"), str): return [x["v"].strip('"')]
        for v in x.values(): out += strings(v)
    elif isinstance(x, list):
        for v in x: out += strings(v)
    return out


def one_cfg(c, p, prec, bs, stor, sc, idx):
    u = Ilu(p, prec, bs, stor, scale=sc, compute_precinfo=True)
    if u.i.obj is None or u.LU is None or u.PP is None:
        c.und(REM, u.name, W, "no factorisation identified"); return
    c.used(u.i.I)
    ret = u.i.ret
    st = u.i.st
    # the array the returned record holds its figures in
    vec = None
    if ret is not None and ret.op == "rec":
        v = st.cells.get(mk("fld", ret.a[0], "f_info"))
        vec = v.a[0] if v is not None and v.op == "vec" else mk("region", mk("fld", ret.a[0], "f_info"))
    eff = u.runs[-1]
    put = {}
    for k, e in enumerate(eff):
        if e.kind == "store" and e.base is vec and e.off is not None and numval(e.off) is not None: put.setdefault(int(numval(e.off)), []).append((k, e))
    m = u.m
    # passes over the factor
    own = [k for k, e in enumerate(eff) if e.kind == "store" and e.base is u.LU]
    tops = {}
    for k, e in enumerate(eff):
        if e.base is u.LU and e.kind in ("read", "store") and e.ctx:
            t = next((x for x in e.ctx if isinstance(x, (IN.Loop, IN.Omp))), None)
            if t is not None:
                q = tops.setdefault(id(t), [k, k, False, t]); q[1] = k; q[2] |= e.kind == "store"
    wr = sorted((q for q in tops.values() if q[2]), key=lambda q: q[0])
    rd = sorted((q for q in tops.values() if not q[2]), key=lambda q: q[0])
    sweeps = [k for k in own if poslists(eff[k].val) or any(x.op in ("load", "mload") and x.a[0] is u.PP for x in walk(eff[k].val))]
    swp = [q for q in wr if any(q[0] <= k <= q[1] for k in sweeps)]
    init, sw, fin = u.split(u.ss[-1])
    s0 = swp[0][0] if swp else None
    s1 = swp[-1][1] if swp else None
    i1 = max((q[1] for q in wr if s0 is not None and q[1] < s0), default=-1)
    f0 = min((q[0] for q in wr if s1 is not None and q[0] > s1), default=len(eff))
    for a in ACC:
        n = "%s: %s" % (u.name, a)
        rule = REM if a.startswith("prec") else DOM
        if a not in idx: continue
        ps = put.get(idx[a], [])
        if not ps:
            (c.bad if vec is not None and put else c.und)(rule, n, W, "the figure is requested but not recorded"); continue
        k, e = ps[-1]
        if rule == REM: formula_rem(c, u, n, e)
        else: formula_dom(c, u, n, e, a)
        # when
        if s0 is None: c.und(ORD, n, e.where(), "no sweeps identified"); continue
        r = [q for q in rd if q[1] < k]
        if a == "prec_rem_initial_norm":
            r = [q for q in r if i1 < q[0] and q[1] < s0]
            if not r: c.bad(ORD, n, e.where(), "must be measured after the initial guess is set and before the first sweep; no pass over the factor lies between them")
            else: c.ok(ORD, n, e.where())
        else:
            r = [q for q in r if s1 < q[0]]
            if not r: c.bad(ORD, n, e.where(), "must be measured after the last sweep; no pass over the factor lies between it and the recording")
            elif not [q for q in r if q[1] < f0]: c.bad(ORD, n, e.where(), "must be measured before the diagonal blocks are inverted")
            else: c.ok(ORD, n, e.where())
    # no side effect
    v = Ilu(p, prec, bs, stor, scale=sc, compute_precinfo=False)
    ren = {a: b for a, b in ((v.LU, u.LU), (v.SC, u.SC), (v.PP, u.PP), (v.LP, u.LP), (v.UP, u.UP)) if a is not None and b is not None}
    def sig(s, ren):
        f = lambda t: subst(t, ren).id
        return f(s.base), [(f(n), d) for n, d in s.data], f(s.off), f(s.val), [f(n) for n, L in s.rep], sorted(f(g) for g in s.guards)
    pick = lambda x, ren: [sig(s, ren) for s in x.ss[-1] if s.base in (x.LU, x.SC)]
    c.req(pick(u, {}) == pick(v, ren), SAME, u.name, W, "the stores to the factor and the scaling vector differ when diagnostics are requested")


def clean(u, t):
    """1x1 blocks are numbers"""
    t = norm_end(t, u.m)
    if u.m.bs == 1:
        t = subst(t, {x: load(x.a[0].a[0], x.a[0].a[1]) for x in walk(t) if x.op == "elemof" and x.a[1] is ZERO and x.a[2] is ZERO and x.a[0].op in ("mload", "load")})
    return t


def ab(x): return absv(x)


def el(u, j, r, q): return u.lu(j) if u.m.bs == 1 else mk("elemof", u.lu(j), r, q)


def over(u, body):
    """sum over all entries of all rows"""
    m = u.m
    i, t = mk("sym", "$i"), mk("sym", "$t")
    lo = m.rowptr(i)
    return sum_(i, m.n, sum_(t, sub(m.rowptr(add(i, ONE)), lo), body(i, add(lo, t))))


def formula_rem(c, u, n, e):
    m = u.m
    r, q = mk("sym", "$r"), mk("sym", "$q")
    V = clean(u, e.val)
    wants = []
    for order in (0, 1):
        def body(i, j):
            E = sub(sub(u.a(i, j), subst(u.products(), {J_: j})),
                    ite(cmp("<", m.col(j), i), mul(u.lu(j), u.lu(m.diag(m.col(j)))), u.lu(j)))
            if m.bs == 1: return ab(E)
            x = ab(mk("elemof", E, r, q))
            return sum_(r, num(m.bs), sum_(q, num(m.bs), x)) if order == 0 else sum_(q, num(m.bs), sum_(r, num(m.bs), x))
        wants.append(clean(u, over(u, body)))
    if V in wants: c.ok(REM, n, e.where()); return
    if any(cases(V, w, True) and cases(V, w, False) for w in wants): c.ok(REM, n, e.where()); return
    (c.und if opaque(V) else c.bad)(REM, n, e.where(), "not the sum of |a - l u - (l u_diag | u)| over all entries: " + diffterm(V, wants[0]))


def cases(a, b, val):
    """equal when every comparison of a column with its row has the given outcome"""
    def pick(t):
        t2 = t
        for x in walk(t):
            if x.op == "ite" and x.a[0].op == "lt0":
                g = x.a[0].a[0]
                its = list(items(g))
                pos = [f for k, s, nc in its for f, _ in s if k > 0 and f.op == "load"]
                neg_ = [f for k, s, nc in its for f, _ in s if k < 0 and f.op == "load"]
                if (pos or neg_): return pick(subst(t, {x: x.a[1] if bool(pos) == val else x.a[2]}))
        return t2
    return pick(a) is pick(b)


def formula_dom(c, u, n, e, a):
    m = u.m
    V = clean(u, e.val)
    i, r, q, t = mk("sym", "$i"), mk("sym", "$r"), mk("sym", "$q"), mk("sym", "$t")
    d = m.diag(i)
    one_row = lambda j: ab(el(u, j, r, q)) if m.bs == 1 else sum_(q, num(m.bs), ab(el(u, j, r, q)))
    if a.startswith("lower"):
        x = sub(ONE, sum_(t, sub(d, m.rowptr(i)), one_row(add(m.rowptr(i), t))))
    else:
        s = sum_(t, sub(sub(m.rowptr(add(i, ONE)), d), ONE), one_row(add(add(d, ONE), t)))
        if m.bs > 1: s = add(s, sum_(q, num(m.bs), ite(cmp("==", r, q), ZERO, ab(el(u, d, r, q)))))
        x = sub(ONE, mul(s, inv(ab(el(u, d, r, r)))))
    if "avg" in a:
        w = mul(sum_(i, m.n, x if m.bs == 1 else sum_(r, num(m.bs), x)), inv(mul(m.n, num(m.bs))))
        w = clean(u, w)
        if V is w: c.ok(DOM, n, e.where()); return
        (c.und if opaque(V) else c.bad)(DOM, n, e.where(), "not the average over all rows: " + diffterm(V, w)); return
    w = clean(u, sum_(i, m.n, mk("call", "min1", x) if m.bs == 1 else sum_(r, num(m.bs), mk("call", "min1", x))))
    S, bad = set(), []
    leaves(V, [], S, bad)
    if bad or not S: c.und(DOM, n, e.where(), "not a minimum: %s" % V); return
    cons = [y for y in S if numval(y) is not None]
    rest = [y for y in S if numval(y) is None]
    if any(numval(y) < 1 for y in cons): c.bad(DOM, n, e.where(), "the minimum includes the constant %s" % min(numval(y) for y in cons)); return
    if w in rest and m.bs > 1:      # single rows may be named again, as start values
        more = {clean(u, sum_(i, m.n, mk("call", "min1", subst(x, {r: num(k)})))) for k in range(m.bs)}
        rest = [y for y in rest if y is w or y not in more]
    if rest == [w]: c.ok(DOM, n, e.where()); return
    (c.und if any(opaque(y) for y in rest) else c.bad)(DOM, n, e.where(), "not the minimum over all rows: " + (diffterm(rest[0], w) if rest else "no row is looked at"))


def leaves(t, bnd, S, bad):
    """what a nest of minima ranges over, each as a sum of min1 marks over its loops"""
    if t.op == "call" and t.a[0] == "minover":
        leaves(t.a[1], bnd, S, bad)
        inner(t.a[2], bnd, S, bad)
        return
    if t.op == "call" and t.a[0] in ("std::min", "fmin", "std::fmin"):
        for x in t.a[1:]: leaves(x, bnd, S, bad)
        return
    if t.op == "ite" and t.a[0].op in ("lt0", "ltf") and t.a[0].a[0] in (sub(t.a[1], t.a[2]),):
        leaves(t.a[1], bnd, S, bad); leaves(t.a[2], bnd, S, bad)
        return
    if numval(t) is not None: S.add(t); return
    x = mk("call", "min1", t)
    for s, nn in reversed(bnd): x = sum_(s, nn, x)
    S.add(x)


_n = [0]


def inner(t, bnd, S, bad):
    if t.op == "call" and t.a[0] == "min1": leaves(t.a[1], bnd, S, bad); return
    if t.op == "sum":
        _n[0] += 1
        s = mk("sym", "$b%d" % _n[0])
        inner(subst(t.a[2], {t.a[1]: s}), bnd + [(s, t.a[0])], S, bad); return
    bad.append(t)


if __name__ == "__main__":
    main(check, "P24", "Value-flow normal form of every recorded figure, for each factorisation class, block size, storage order and scaling choice, compared with its formula; position of the measuring passes between the factor stores; factor stores with and without diagnostics compared.",
         ["the matrix rows are sorted, unpadded and contain the diagonal", "distinct array arguments do not alias"])
