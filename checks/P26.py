"""Matching-based ordering and scaling: what is handed to the matching library, what is made of its results."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import frontend
from lib import *
from model import *

SELF, M = mk("obj", "mc"), mk("obj", "A")
NB = mk("sym", mk("fld", M, "nbrows"))
# documented sizes of the library's work arrays, per job: multiples of (order, entries)
LIW = {1: (5, 0), 2: (4, 0), 3: (10, 1), 4: (5, 0), 5: (5, 0)}
LDW = {1: (0, 0), 2: (1, 0), 3: (0, 1), 4: (2, 1), 5: (3, 1)}
ARGS = ("job", "order", "entries", "column pointers", "row indices", "values", "diagonal count", "permutation", "size of the integer work array",
        "integer work array", "size of the real work array", "real work array", "controls", "status")


class Run:
    def __init__(self, p, job, f, this=SELF, args=None):
        I = self.I = Interp(p, budget=400000)
        st = self.st = State()
        I.dyn[SELF] = "blasted::MC64"
        if job is not None:
            st.cells[mk("fld", SELF, "job")] = num(job)
            I.preset[mk("fld", SELF, "job")] = num(job)
        I.noinline = {"blasted::convert_BSR_to_BSC_1based", "blasted::invertPermutationVector"}
        I.models["std::make_tuple"] = lambda I, st, vs, line: mk("call", "tuple", *vs)
        I.models["std::make_pair"] = lambda I, st, vs, line: mk("call", "tuple", *vs)
        I.models["*"] = self.other
        self.r = I.run(f, args=args or {0: ("lv", M)}, this=this, cls="blasted::MC64", st=st)
        self.eff = I.eff

    def other(self, I, st, e, vs):
        m = re.match(r"(?:void |const )*std::get<(\d+)", e.get("key", "")) or re.match(r"std::get<(\d+)", e.get("fn", ""))
        if m and vs:
            v = vs[0]
            if v.op in ("ptr", "lv", "rec"): v = st.cells.get(v.a[0], v) if v.op != "rec" else v
            if v.op == "call" and v.a[0] == "tuple": return v.a[1 + int(m.group(1))]
        return None


def check(c, p):
    q = frontend.Program(extra=["-DHAVE_MC64"], tolerate=True)
    if q.failed:
        for u, err in sorted(q.failed.items()):
            l = [x for x in err.splitlines() if "error:" in x] or ["?"]
            c.bad("available", os.path.relpath(u, frontend.REPO), os.path.relpath(u, frontend.REPO), "does not compile with the matching library: %s" % l[0][:300])
        return
    c.ok("available", "all units", "src/")
    for job in (1, 2, 3, 4, 5): matching(c, q, job)
    invalid(c, q)
    c.need("handed over", 10); c.need("results", 5)


def before(r, e, loc):
    """the value of a location when e happens"""
    v = None
    for x in r.eff:
        if x is e: break
        if x.kind == "set" and x.base is loc: v = x.val
    return v


def matching(c, q, job):
    f = one(q, "blasted::MC64::compute", 1)
    nm, w = "job %d" % job, q.loc(f)
    r = Run(q, job, f)
    c.used(r.I)
    ex = [e for e in r.eff if e.kind == "call" and e.name == "mc64ad_"]
    if len(ex) != 1: c.bad("handed over", nm, w, "the matching library is called %d times" % len(ex)); return
    e = ex[0]
    if len(e.args) != 14: c.und("handed over", nm, e.where(), "%d arguments" % len(e.args)); return
    conv = [x for x in r.eff if x.kind == "call" and x.name == "blasted::convert_BSR_to_BSC_1based" and x.seq < e.seq]
    if not conv: c.und("handed over", nm, e.where(), "the column form of the matrix is not recognised"); return
    CS = conv[-1].val
    a = e.args
    got = lambda k: value_at(r, e, a[k])
    nz = load(mk("deref", mk("fld", M, "browptr")), NB)
    ok = lambda k, good, msg: c.req(good, "handed over", "%s, %s" % (nm, ARGS[k]), e.where(), msg)
    shown = lambda k: show(got(k)) if got(k) is not None else show(a[k])
    ok(0, numval(got(0)) == job if got(0) is not None else False, "the library is given job %s" % shown(0))
    n_ = got(1)
    ok(1, n_ is not None and (n_ is NB or last(n_) == "nbcols" and mentions(n_, CS)), "the order given is %s" % shown(1))
    ok(2, got(2) is nz, "the number of entries given is %s, required %s" % (shown(2), show(nz)))
    for k, fld in ((3, "bcolptr"), (4, "browind"), (5, "vals")):
        ok(k, column(a[k], CS, fld), "given %s, required the one-based column form's %s" % (show(a[k]), fld))
    CP = mk("region", mk("fld", SELF, "cp"))
    base = lambda t: t.a[0] if t.op == "ptr" and len(t.a) > 1 and t.a[1] is ZERO else None
    ok(7, base(a[7]) is CP, "the permutation is put into %s" % show(a[7]))

    def room(b, at=e):
        v = None
        for x in r.eff:
            if x is at: break
            if x.kind == "alloc" and x.base is b: v = x.off if x.off is not None else x.val
            if x.kind == "set" and x.base is mk("fld", b, "$size"): v = x.val
        return v
    n0 = room(CP)
    ok(7, n0 is NB or n0 is not None and geq(sub(n0, NB)), "room for %s numbers in the permutation, required %s" % (n0, NB))
    for k, tab, what in ((8, LIW, "integer"), (10, LDW, "real")):
        want = add(scale(NB, tab[job][0]), scale(nz, tab[job][1]))
        v, b = got(k), base(a[k + 1])
        have = room(b) if b is not None else None
        ok(k, v is not None and geq(sub(v, want)), "the %s work array is said to have %s elements, the library needs %s" % (what, v, want))
        ok(k + 1, v is not None and have is not None and geq(sub(have, v)), "the %s work array has %s elements and is said to have %s" % (what, have, v))
    ini = [x for x in r.eff if x.kind == "call" and x.name == "mc64id_" and x.seq < e.seq and x.args and x.args[0] is a[12]]
    ok(12, bool(ini), "the controls are not initialised by the library before the call")
    bad = [x for x in r.eff if x.kind == "store" and x.base is base(a[12]) and x.seq < e.seq]
    if bad: c.und("handed over", nm + ", changed controls", bad[0].where(), "controls are changed")
    for k, what in ((12, "controls"), (13, "status")):
        s = [x for x in q.funcs[f["key"]]["body"] and decls(f["body"]) if a[k].op == "ptr" and str(a[k].a[0]).startswith(x["n"] + "#")]
        m = re.search(r"\[(\d+)\]", s[0]["t"]) if s else None
        if m: ok(k, int(m.group(1)) >= 10, "the %s array has %s elements, the library uses 10" % (what, m.group(1)))
        else: c.und("handed over", "%s, %s" % (nm, ARGS[k]), e.where(), "size of the array not recognised")
    early = [x for x in r.eff if x.kind == "free" and x.seq < e.seq]
    ok(3, not early, "memory is released before the call: %s" % [show(x.val) for x in early])
    # failure
    info = load(base(a[13]), ZERO) if base(a[13]) is not None else None
    if info is None: c.und("failure", nm, e.where(), "status array not recognised"); return
    uses = [x for x in r.eff if x.kind == "store" and x.base.op == "region" and x.seq > e.seq]
    fine = eq(info, ZERO)
    okf = uses and all(any(g is fine for g in list(x.guards()) + [cc for cc, k in x.live]) for x in uses)
    c.req(bool(okf), "failure", nm, (uses or [e])[0].where(), "results are used although the library may have reported a failure")
    # results
    stores = {}
    for x in r.eff:
        if x.kind == "store" and x.seq > e.seq and x.base.op == "region": stores.setdefault(x.base, []).append(x)
    t = D[0]
    DW = base(a[11])
    want = {"cp": sub(mk("call", "abs", load(CP, t)), ONE)}
    if job == 5:
        want["rowscale"] = mk("call", "exp", load(DW, t))
        want["colscale"] = mk("call", "exp", load(DW, add(NB, t)))
    for k in ("rp", "cp", "icp", "irp", "rowscale", "colscale"):
        b = mk("region", mk("fld", SELF, k))
        ss = stores.pop(b, [])
        inst = "%s, %s" % (nm, k)
        if k not in want:
            rs = [x for x in r.eff if x.kind in ("resize", "alloc", "push", "insert") and x.base is b]
            if k != "icp": c.req(not ss and not rs, "results", inst, ((ss or rs) or [e])[0].where(), "%s is set, and this job determines none" % k)
            continue
        if not ss: c.bad("results", inst, w, "%s is not taken from the library's results" % k); continue
        s = canon(ss[0])
        s.guards = [g for g in s.guards if g is not fine]
        el = elementwise(s)
        if len(ss) > 1: c.und("results", inst, ss[1].where(), "%d updates" % len(ss)); continue
        if el is None: (c.und if s.opaque() else c.bad)("results", inst, ss[0].where(), "not an assignment of every element: %r" % s); continue
        c.req(el[0] is NB, "results", inst + ", extent", ss[0].where(), "%s elements are set, required %s" % (el[0], NB))
        c.req(same(el[1], want[k]), "results", inst, ss[0].where(), "element is %s, required %s" % (show(el[1]), show(want[k])))
        n1 = room(b, ss[0])
        c.req(n1 is not None and geq(sub(n1, NB)), "results", inst + ", room", ss[0].where(), "%s has room for %s elements" % (k, n1))
    inv_ = [x for x in r.eff if x.kind == "call" and x.name == "blasted::invertPermutationVector" and x.seq > e.seq]
    last_cp = max([x.seq for x in r.eff if x.kind == "store" and x.base is CP] or [0])
    iset = [x for x in r.eff if x.kind == "set" and x.base is mk("fld", SELF, "icp")]
    good = inv_ and iset and iset[-1].val is inv_[-1].val and inv_[-1].seq > last_cp
    src = None
    if inv_:
        src = inv_[-1].args[0]
        cop = [x for x in r.eff if x.kind == "veccopy" and src.op == "vec" and x.base is src.a[0]]
        if cop: src = cop[0].val
    c.req(bool(good) and src is not None and src.op == "vec" and src.a[0] is CP, "results", nm + ", inverse permutation", (iset or [e])[-1].where(),
          "the inverse column permutation is not that of the permutation obtained")


def last(t):
    t = t.a[0] if t.op == "sym" and isinstance(t.a[0], T) else t
    return t.a[1] if t.op == "fld" else None


def column(t, cs, fld):
    if t.op != "ptr": return False
    x = t.a[0]
    while x.op in ("deref", "sym", "cell") and isinstance(x.a[0], T): x = x.a[0]
    return x.op == "fld" and x.a[1] == fld and mentions(x, cs)


def value_at(r, e, t):
    """the number a pointer argument points to when the call happens"""
    if t.op != "ptr": return None
    loc = t.a[0].a[0] if t.a[0].op == "cell" else t.a[0]
    return before(r, e, loc) or r.st.cells.get(loc)


def geq(t):
    """t >= 0 for sizes that are not negative"""
    for k, sc, nc in items(t):
        if k < 0: return False
    return True


def same(a, b):
    return a is b or show(a).replace("std::", "") == show(b).replace("std::", "")


def decls(n):
    if isinstance(n, dict):
        if "n" in n and "t" in n and n.get("k") in (None, "var", "decl"): yield n
        for v in n.values(): yield from decls(v)
    elif isinstance(n, list):
        for v in n: yield from decls(v)


def invalid(c, q):
    """a job the library does not offer is refused"""
    f = one(q, "blasted::MC64::compute", 1)
    for job in (0, 6):
        r = Run(q, job, f)
        ex = [e for e in r.eff if e.kind == "call" and e.name == "mc64ad_"]
        c.req(not ex and r.st.dead == "throw", "handed over", "job %d" % job, q.loc(f), "a job that does not exist is not refused")


if __name__ == "__main__":
    main(check, "P26", "for every job of the matching library: each argument of the call (matrix in one-based columns, order, entries, work arrays of the documented size, initialised controls), refusal of its failures and of unknown jobs, and the permutation, its inverse and the scaling factors taken from its results; that the ordering and the factors are applied as set is decided with property P17", ["the matching library behaves as its documentation says"])
