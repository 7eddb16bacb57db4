"""The C interface on PETSc: error codes, array access, context, options, nesting."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from own import *
from model import *
import petsc

PRE = ("Petsc", "PC", "KSP", "Mat", "Vec", "MPI_", "SNES", "TS", "IS", "DM")
FILES = ("blasted_petsc.cpp", "blasted_petsc_io.cpp")
BAD = num(77)


def interface(p):
    """the functions of the interface that report errors"""
    return [f for f in sorted(p.funcs.values(), key=lambda f: (f["file"], f["line"])) if "body" in f and not f.get("cls") and f["file"].endswith(FILES) and f["ret"] in ("PetscErrorCode", "int") and not f["n"].startswith("get_")]


def check(c, p):
    fs = interface(p)
    if not fs: raise AnalysisBroken("no functions of the interface found")
    jobs = [(errors, f["key"]) for f in fs] + [(arrays, f["key"]) for f in fs]
    jobs += [(append,), (localonly,), (apply,), (relax,), (context,), (totals,), (nesting,), (registered,), (readvec,)]
    jobs += [(compute, t) for t in range(11)]
    c.par(p, jobs)
    c.need("errors-checked", 30)
    c.need("arrays-returned", 2)


# ------------------------------------------------------------------ error codes
class Faulty:
    """one run of an interface function in which one call reports an error"""

    def __init__(self, p, f, bad=None, budget=1500000):
        self.s = s = petsc.Session(p, succeed=False, budget=budget)
        self.sites = {}
        self.calls = []
        I = s.I
        del I.models["PCShellGetContext"], I.models["create_preconditioner"]
        mine = {g["q"] for g in interface(p)}
        I.noinline = mine | {f["q"]}

        def star(I, st, e, vs):
            fn = e["fn"]
            if fn == "PetscError": return num(99)
            if e["t"] not in ("PetscErrorCode", "int"): return None
            if not fn.startswith(PRE) and not (fn in mine or fn.split("::")[-1] == f["n"]): return None
            if fn == "PCShellGetContext": s.getctx(I, st, vs, e["line"])
            k = (fn.split("::")[-1], e["line"])
            if k not in self.sites: self.sites[k] = str(I.stack[-1].f["n"]), I.stack[-1].f["file"]
            return BAD if k == bad else ZERO
        I.models["*"] = star
        self.f, self.bad = f, bad
        n = len(I.eff)
        self.ret = I.run(f, st=s.st)
        self.eff = I.eff[n:]
        self.dead = s.st.dead


def leaves(v, g=()):
    """[(conditions, value)] of a value with choices"""
    if v.op == "ite":
        return leaves(v.a[1], g + (v.a[0],)) + leaves(v.a[2], g + (not_(v.a[0]),))
    return [(list(g), v)]


def reports(v):
    """does this return value report an error?"""
    n = numval(v)
    return n is not None and n != 0


def escape(r, f, bad):
    """an exit that reports success although the call failed: (effect, value) or None"""
    for i, e in enumerate(r.eff):
        if e.kind != "call" or (e.name or "").split("::")[-1] != bad[0] or e.line != bad[1] or e.val is not BAD: continue
        left = [conds(e)]        # alternatives not yet left
        lp = set(loops(e))
        for x in r.eff[i + 1:]:
            if x.kind == "throw": pass
            elif x.kind != "ret" or x.fn is not f: continue
            cx = conds(x)
            here = [a for a in left if sat(a + cx)]
            if not here: continue
            if x.kind == "ret":
                for g, v in leaves(x.val):
                    if not reports(v) and any(sat(a + cx + g) for a in here): return e, x, v
            if set(loops(x)) - lp: continue        # only in some iteration of another loop
            left = without(left, cx)
            if not left: break
    return None


def without(left, cx):
    """the alternatives that remain when those satisfying cx are gone"""
    out = []
    for a in left:
        k = [x for x in cx if x not in a and sat(a + [not_(x)])]
        if k: out.append(a + [or_(*[not_(x) for x in k])])
    return out


def errors(c, p, key):
    f = p.funcs[key]
    try: r0 = Faulty(p, f)
    except AnalysisBroken as e: return c.und("errors-checked", f["n"], "%s:%s" % (f["file"], f["line"]), str(e))
    c.used(r0.s.I)
    for k, (fn, file) in sorted(r0.sites.items(), key=lambda x: x[0][1]):
        if fn != f["n"] and not fn.startswith(("get_", "setSweeps")) and any(g["n"] == fn for g in interface(p)): continue     # decided where it is called directly
        r = Faulty(p, f, k)
        w = "%s:%s" % (file, k[1])
        inst = "%s: %s%s" % (f["n"], k[0], "" if fn == f["n"] else " in " + fn)
        got = escape(r, f, k)
        if got is None: c.ok("errors-checked", inst, w)
        else: c.bad("errors-checked", inst, w, "an error of %s is dropped: %s returns %s at line %s" % (k[0], f["n"], show(got[2])[:60], got[1].line))
    # a call to another function of the interface that fails is a fault of its own
    for g in {x.name for x in r0.eff if x.kind == "call"}: pass


# ------------------------------------------------------------------ arrays
GET = {"VecGetArray": "VecRestoreArray", "VecGetArrayRead": "VecRestoreArrayRead", "VecGetArrayWrite": "VecRestoreArrayWrite", "MatSeqAIJGetArray": "MatSeqAIJRestoreArray", "MatSeqAIJGetArrayRead": "MatSeqAIJRestoreArrayRead",
       "MatGetRow": "MatRestoreRow", "MatGetRowIJ": "MatRestoreRowIJ", "VecGetLocalVector": "VecRestoreLocalVector", "MatDenseGetArray": "MatDenseRestoreArray"}


def name(e): return (e.name or "").split("::")[-1]


def arrays(c, p, key):
    f = p.funcs[key]
    r = Faulty(p, f)
    c.used(r.s.I)
    given = [e for e in r.eff if e.kind == "call" and name(e) in set(GET) | set(GET.values())]
    for i, e in enumerate(r.eff):
        if e.kind != "call": continue
        if name(e) in GET.values():
            if not any(x.kind == "call" and GET.get(name(x)) == name(e) and x.args[0] is e.args[0] for x in r.eff[:i]):
                c.bad("arrays-returned", "%s: %s" % (f["n"], name(e)), e.where(), "hands back an array that was not obtained")
            continue
        if name(e) not in GET: continue
        inst = "%s: %s(%s)" % (f["n"], name(e), show(e.args[0]))
        back = [x for x in r.eff[i + 1:] if x.kind == "call" and name(x) == GET[name(e)] and x.args[0] is e.args[0] and x.args[1] is e.args[1]]
        why = None
        rest = [conds(e)]
        first = None
        for x in r.eff[i + 1:]:
            if x in back:
                first = first or x
                rest = without(rest, conds(x))
                if not rest: break
            elif x.kind == "ret" and x.fn is f and any(not reports(v) and any(sat(a + conds(x) + g) for a in rest) for g, v in leaves(x.val)):
                why = "not handed back before the return at line %s" % x.line
                break
        if why is None and rest and not back: why = "never handed back (%s)" % ", ".join(sorted({"%s(%s)" % (name(x), show(x.args[0])) for x in given if name(x) in GET.values()}))
        # the array is used in between only
        got = cellof(r, e, e.args[1])
        uses = [j for j, x in enumerate(r.eff) if j > i and x.kind in ("call", "store", "read") and x not in back and got is not None and (x.base is got or any(isinstance(a, T) and a.op == "ptr" and a.a[0] is got for a in (x.args or [])))]
        if why is None and back:
            last = r.eff.index(first)
            late = [j for j in uses if j > last and r.eff[j].kind == "call" and not name(r.eff[j]).startswith("PetscError")]
            if late: why = "used at %s after it was handed back" % r.eff[late[0]].where()
        (c.bad if why else c.ok)(*(("arrays-returned", inst, e.where()) + ((why,) if why else ())))


def cellof(r, e, a):
    """the block that the call e leaves in *a"""
    if a.op != "ptr": return None
    loc = a.a[0].a[0] if a.a[0].op == "cell" else a.a[0]
    for x in r.eff[r.eff.index(e):]:
        if x.kind == "set" and x.base is loc and x.val is not None and x.val.op == "ptr": return x.val.a[0]
    v = r.s.st.cells.get(loc)
    return v.a[0] if v is not None and v.op == "ptr" else None


# ------------------------------------------------------------------ callbacks
def session(p, f, *args, **kw):
    """run a callback in which all calls to PETSc succeed; the arrays of the vectors are named after them"""
    s = petsc.Session(p, **kw)
    I = s.I
    for g in GET:
        if g.startswith("Vec"): I.models[g] = lambda I, st, vs, line: (petsc.out(I, st, vs[1], mk("ptr", mk("array", vs[0].a[0] if vs[0].op == "ptr" else vs[0]), ZERO), line), ZERO)[1]
    for g in GET.values(): I.models[g] = lambda I, st, vs, line: ZERO
    I.models["apply"] = I.models["apply_relax"] = lambda I, st, vs, line: ZERO
    s.eff = s.call(f, *args)
    return s


def ptr(o): return mk("ptr", o, ZERO)
def arr(o): return mk("ptr", mk("array", o), ZERO)


def one_call(effs, n):
    es = [e for e in effs if e.kind == "call" and name(e) == n]
    return es[0] if len(es) == 1 else None


def apply(c, p):
    f = petsc.own(p, "apply_local_blasted")
    w = "%s:%s" % (f["file"], f["line"])
    s = session(p, "apply_local_blasted", petsc.PCV, petsc.RV, petsc.ZV)
    c.used(s.I)
    e = one_call(s.eff, "apply")
    if e is None: return c.bad("forwarded", "apply", w, "the preconditioner is not applied exactly once")
    obj = this_of(s, e)
    c.req(list(e.args[-2:]) == [arr(petsc.RV), arr(petsc.ZV)] and not conds(e), "forwarded", "apply: right-hand side and result", e.where(), "applied to %s under %s" % (", ".join(map(show, e.args)), list(map(show, conds(e)))))
    c.req(obj is None or obj is mk("deref", mk("fld", s.ctx, "bprec")) or "bprec" in show(obj), "forwarded", "apply: the context's preconditioner", e.where(), "applies %s" % (show(obj) if obj is not None else ""))


def this_of(s, e):
    b = e.base
    return b


def relax(c, p):
    f = petsc.own(p, "relax_local_blasted")
    w = "%s:%s" % (f["file"], f["line"])
    A = [mk("sym", n) for n in ("rtol", "abstol", "dtol", "it", "guess")]
    its, rea = mk("obj", "outits"), mk("obj", "reason")
    s = session(p, "relax_local_blasted", petsc.PCV, petsc.RV, petsc.XV, petsc.WV, A[0], A[1], A[2], A[3], A[4], its, rea)
    c.used(s.I)
    e = one_call(s.eff, "apply_relax")
    if e is None: return c.bad("forwarded", "relax", w, "the relaxation is not called exactly once")
    c.req(list(e.args[-2:]) == [arr(petsc.RV), arr(petsc.XV)] and not conds(e), "forwarded", "relax: right-hand side and iterate", e.where(), "called with %s under %s" % (", ".join(map(show, e.args)), list(map(show, conds(e)))))
    i = s.eff.index(e)
    v = [x for x in s.eff if x.kind == "call" and name(x) == "VecSet"]
    good = len(v) == 1 and s.eff.index(v[0]) < i and list(v[0].args[:2]) == [ptr(petsc.XV), ZERO] and conds(v[0]) == [tocond(A[4])]
    c.req(good, "forwarded", "relax: starts from zero exactly when asked to", v[0].where() if v else w, "found %s" % [("%s under %s" % (show(x.args[0]), list(map(show, conds(x))))) for x in v])
    g = [x for x in s.eff if x.kind == "call" and name(x) in GET and x.args[0] is ptr(petsc.XV)]
    if v and g: c.req(s.eff.index(v[0]) < s.eff.index(g[0]), "forwarded", "relax: the vector is zeroed before its array is obtained", v[0].where(), "VecSet on a vector whose array is in use")
    # parameters
    pr = [x for x in s.eff[:i] if x.kind == "set" and x.base.op == "fld" and str(x.base.a[0].op) == "fld" and x.base.a[0].a[1] == "solveparams"]
    want = dict(rtol=A[0], atol=A[1], dtol=A[2], maxits=A[3], ctol=FALSE)
    got = {}
    for loc, val in s.st.cells.items():
        if loc.op == "fld" and loc.a[0].op == "fld" and loc.a[0].a[1] == "solveparams": got[loc.a[1]] = val
    for n, t in sorted(want.items()):
        if n not in got: c.bad("forwarded", "relax: parameter " + n, w, "is not given to the relaxation"); continue
        ok = got[n] is t or t is FALSE and (got[n] is ZERO or got[n] is FALSE)
        c.req(ok, "forwarded", "relax: parameter " + n, w, "is %s, required %s" % (show(got[n]), show(t)))
    o = s.st.cells.get(its)
    c.req(o is A[3], "forwarded", "relax: reported iterations", w, "is %s" % (show(o) if o is not None else "not set"))
    q = s.st.cells.get(rea)
    c.req(q is not None and q.op not in ("uninit",), "forwarded", "relax: reported reason", w, "is not set")


# ------------------------------------------------------------------ contexts
def context(c, p):
    for fn, rec in (("newBlastedDataContext", "Blasted_node"), ("newBlastedDataList", None)):
        f = petsc.own(p, fn)
        if f is None: raise AnalysisBroken("no function " + fn)
        I, st = Interp(p, budget=100000), State()
        r = I.run(f, st=st)
        c.used(I)
        w = "%s:%s" % (f["file"], f["line"])
        rn = rec or strip(f["ret"])
        fields = p.records.get(rn, {}).get("fields", [])
        if r is None or r.op != "rec" or not fields: c.und("initialised", fn, w, "not followed"); continue
        for x in fields:
            loc = mk("fld", r.a[0], x["n"])
            if x["tc"] == "array" or "[" in x["t"]:
                ok = any(e.kind in ("store", "fill") and (e.base is loc or mentions(e.base, loc)) or e.kind == "zeroinit" for e in I.eff) or any(mentions(k, loc) for k in st.cells) or any(mentions(k, loc) for k in st.writes)
            else:
                v = st.cells.get(loc)
                ok = v is not None and not any(y.op in ("uninit", "uninitp") for y in walk(v)) and v is not mk("sym", loc)
            c.req(ok, "initialised", "%s: %s" % (fn, x["n"]), w, "is not given a value")


def totals(c, p):
    f = petsc.own(p, "computeTotalTimes")
    if f is None: raise AnalysisBroken("no function computeTotalTimes")
    I, st = Interp(p, budget=100000), State()
    L = mk("obj", "list")
    I.run(f, args={0: ("v", ptr(L))}, st=st)
    c.used(I)
    w = "%s:%s" % (f["file"], f["line"])
    for n in ("factorcputime", "factorwalltime", "applycputime", "applywalltime"):
        sets = [e for e in I.eff if e.kind == "set" and e.base is mk("fld", L, n)]
        inloop = [e for e in sets if loops(e)]
        zero = [e for e in sets if not loops(e) and e.val is ZERO]
        names = {y for e in inloop for t in walk(e.val) if isinstance(t, T) and t.op != "opq" for y in t.a if isinstance(y, str) and y.endswith("time")}
        if len(inloop) == 1 and zero and names == {n}: c.ok("totals", n, w)
        elif not sets or not zero: c.bad("totals", n, w, "does not start from zero")
        elif names and names != {n}: c.bad("totals", n, inloop[0].where(), "adds %s" % ", ".join(sorted(names - {n})))
        else: c.und("totals", n, w, "not followed")


# ------------------------------------------------------------------ options to settings
def compute(c, p, t):
    """first use of a context of this type: the settings the factory is given"""
    f = petsc.own(p, "compute_preconditioner_blasted")
    w = "%s:%s" % (f["file"], f["line"])
    NAME = {v: k for k, v in PT.items()}
    nb, na, ch, SEQ = num(4), num(3), mk("sym", "chunk"), num(-1)
    asyncilu = t in (PT["ilu0"], PT["sapilu0"], PT["async_level_ilu0"])
    plain = t in (PT["jacobi"], PT["level_sgs"], PT["none"])
    seqs = [(nb, na)]
    if t in (PT["ilu0"], PT["sfilu0"], PT["sapilu0"]): seqs += [(SEQ, na), (nb, SEQ), (SEQ, SEQ)]
    for b, a in seqs:
        for info in (FALSE, TRUE):
            for again in (False, True):
                if again and (b is SEQ or a is SEQ): continue
                inst = "%s, sweeps %s,%s, %s diagnostics%s" % (NAME[t], show(b), show(a), "with" if info is TRUE else "no", ", second time" if again else "")
                sc = mk("nz", mk("sym", "scale"))
                opt = {"-blasted_async_sweeps": [b, a], "-blasted_thread_chunk_size": ch, "-blasted_use_symmetric_scaling": ONE, "-blasted_compute_preconditioner_info": ONE if info is TRUE else ZERO}
                s = petsc.Session(p, ptype=t, options=opt)
                grabbed = {}

                def create(I, st, vs, line, s=s, grabbed=grabbed):
                    o = next((v.a[0] for v in vs if v.op in ("rec", "lv", "ptr") and mk("fld", v.a[0], "prectype") in st.cells), None)
                    if o is None: o = next((v.a[0] for v in vs if v.op == "lv"), None)
                    grabbed.setdefault("n", 0); grabbed["n"] += 1
                    grabbed["set"] = {k.a[1]: v for k, v in st.cells.items() if k.op == "fld" and k.a[0] is o}
                    m = next((v.a[0] for v in vs if v.op in ("rec", "lv") and v.a[0] is not o), None)
                    grabbed["mat"] = m
                    grabbed["cells"] = dict(st.cells)
                    return petsc.Session.create(s, I, st, vs, line)
                s.I.models["create_preconditioner"] = create
                s.I.models["MatMissingDiagonal"] = lambda I, st, vs, line: (petsc.out(I, st, vs[1], ZERO, line), ZERO)[1]
                comp = []
                s.I.models["compute"] = lambda I, st, vs, line, comp=comp: (comp.append(line), mk("rec", mk("obj", "precinfo")))[1]
                s.I.models["relaxationAvailable"] = lambda I, st, vs, line: mk("sym", "relaxes")
                r = s.I.run(petsc.own(p, "newBlastedDataContext"), st=s.st)
                if r is None or r.op != "rec": return c.und("settings", inst, w, "the new context is not followed")
                s.st.dead, s.st.live = None, []
                s.I.copyrec(s.st, s.ctx, r, "Blasted_node", 0)
                s.st.cells[mk("fld", s.ctx, "bfactory")] = ptr(petsc.FACTORY)
                s.st.cells[mk("fld", s.ctx, "bs")] = num(4) if t != PT["cscbgs"] else ONE
                bs = 4 if t != PT["cscbgs"] else 1
                eff = s.call("compute_preconditioner_blasted", petsc.PCV)
                if again:
                    comp.clear()
                    if grabbed.get("n") != 1: c.bad("settings", inst, w, "the preconditioner is created %d times" % grabbed.get("n", 0)); continue
                    grabbed["n"] = 0
                    eff = s.call("compute_preconditioner_blasted", petsc.PCV)
                    c.req(grabbed["n"] == 0, "settings", inst + ": created once", w, "is created again on every set-up")
                    c.req(len(comp) == 1, "settings", inst + ": recomputed", w, "the preconditioner is computed %d times" % len(comp))
                    pushed(c, s, eff, inst, w, info)
                    continue
                c.used(s.I)
                if s.threw: c.bad("settings", inst, w, "throws"); continue
                if "set" not in grabbed: c.und("settings", inst, w, "the preconditioner is not created"); continue
                c.req(len(comp) == 1, "settings", inst + ": computed", w, "the preconditioner is computed %d times" % len(comp))
                pushed(c, s, eff, inst, w, info)
                typ, eb, ea = t, b, a
                if a is SEQ and b is SEQ or a is SEQ and t == PT["sfilu0"] or b is SEQ and t == PT["sapilu0"]: typ, eb, ea = PT["seqilu0"], ONE, ONE
                elif a is SEQ: typ, ea = PT["sapilu0"], ONE
                elif b is SEQ: typ, eb = PT["sfilu0"], ONE
                if plain: eb = ea = ONE
                want = {"prectype": num(typ), "bs": num(bs), "blockstorage": ZERO, "compute_precinfo": info, "scale": TRUE if asyncilu else FALSE, "relax": FALSE}
                if typ != PT["seqilu0"] and t != PT["seqilu0"]: want.update(nbuildsweeps=eb, napplysweeps=ea)
                if not plain:
                    want["thread_chunk_size"] = ch
                    if typ not in (PT["seqilu0"],): want["apply_inittype"] = "getApplyInitFromString"
                    if typ in (PT["ilu0"], PT["sapilu0"], PT["async_level_ilu0"]): want["fact_inittype"] = "getFactInitFromString"
                else: want["thread_chunk_size"] = ONE
                got = grabbed["set"]
                for n, v in sorted(want.items()):
                    g = got.get(n)
                    i2 = "%s: %s" % (inst, n)
                    if g is None: c.bad("settings", i2, w, "is not set before the factory is called"); continue
                    if isinstance(v, str): ok = g.op == "call" and g.a[0] == v and strof(s, g.a[1], v, p)
                    else: ok = g is v or v is FALSE and (g is ZERO or g is FALSE) or v is TRUE and (g is ONE or g is TRUE)
                    if not ok and opaque(g): c.und("settings", i2, w, "is %s" % show(g)); continue
                    c.req(ok, "settings", i2, w, "is %s, required %s" % (show(g), v if isinstance(v, str) else show(v)))
                matrix(c, s, grabbed, inst, w, bs)
                # relaxation callback exactly when the preconditioner can relax
                rel = [e for e in eff if e.kind == "call" and name(e) == "PCShellSetApplyRichardson"]
                cc = [x for e in rel for x in conds(e)]
                c.req(len(rel) == 1 and cc and sat(cc + [tocond(mk("sym", "relaxes"))]) and not sat(cc + [not_(tocond(mk("sym", "relaxes")))]), "settings", inst + ": relaxation offered exactly when available", w, "found %s" % [list(map(show, conds(e))) for e in rel])


def strof(s, a, v, p):
    """the string the initialisation is taken from is the one of the right option"""
    want = {"getApplyInitFromString": "applyinittype", "getFactInitFromString": "factinittype"}[v]
    return want in show(a) or not any(x in show(a) for x in ("applyinittype", "factinittype", "prectypestr"))


def pushed(c, s, eff, inst, w, info):
    ps = [e for e in eff if e.kind == "push"]
    c.req((len(ps) == 1) == (info is TRUE) and len(ps) <= 1, "settings", inst + ": diagnostics kept", w, "%d records are kept per set-up" % len(ps))


def matrix(c, s, grabbed, inst, w, bs):
    """the arrays of the local matrix reach the factory in their places"""
    m, cells = grabbed.get("mat"), grabbed.get("cells")
    if m is None: return c.und("matrix", inst, w, "the matrix argument is not followed")
    want = dict(browptr=("i", 0), bcolind=("j", 0), vals=("a", 0), diagind=("diag", 0), browendptr=("i", 1))
    for n, (fld, off) in sorted(want.items()):
        v = cells.get(mk("fld", mk("fld", m, n), "data"))
        i2 = "%s: %s" % (inst, n)
        if v is None or v.op != "ptr": c.und("matrix", i2, w, "not followed"); continue
        b = v.a[0]
        t = b.a[0] if b.op == "deref" else b
        good = t.op == "fld" and t.a[1] == fld and v.a[1] is num(off)
        c.req(good, "matrix", i2, w, "is %s" % show(v))
        o = cells.get(mk("fld", mk("fld", m, n), "owner"))
        c.req(o is FALSE or o is ZERO, "matrix", i2 + " stays PETSc's", w, "ownership is %s" % (show(o) if o is not None else "unset"))
    nbr = cells.get(mk("fld", m, "nbrows"))
    nz = cells.get(mk("fld", m, "nnzb"))
    if nbr is not None and "MatGetLocalSize" in show(nbr):
        ok = (bs == 1) == (not any(t.op in ("idiv", "div") or "/" in show(t)[:40] for t in [nbr]))
        txt = show(nbr)
        c.req(("/" in txt or "div" in txt) == (bs != 1), "matrix", inst + ": rows", w, "is %s" % txt)
    if nz is not None and nbr is not None:
        c.req(nz.op == "load" and nz.a[1] is nbr, "matrix", inst + ": stored entries", w, "is %s" % show(nz))


# ------------------------------------------------------------------ nesting
def levels(eff):
    """the number of multigrid levels as the program sees it"""
    for x in eff:
        for l in loops(x):
            if l.n is None: continue
            r = find_out(l.n, "PCMGGetLevels")
            if r is not None: return r
    return None


def find_out(t, fn):
    if show(t).startswith("out(" + fn): return t
    if fn in show(t):
        for d in (-1, 0, 1):
            r = add(t, num(d))
            if show(r).startswith("out(") : return r
    return None


def nesting(c, p):
    f = petsc.own(p, "setup_blasted_stack_ext")
    if f is None: raise AnalysisBroken("no function setup_blasted_stack_ext")
    w = "%s:%s" % (f["file"], f["line"])
    s = petsc.Session(p)
    s.I.noinline = {f["q"]}
    s.I.models[f["n"]] = s.I.models[f["q"]] = lambda I, st, vs, line: ZERO
    L = petsc.LIST
    n = len(s.I.eff)
    s.I.run(f, args={0: ("v", ptr(petsc.KSPV)), 1: ("lv", petsc.FACTORY), 2: ("v", ptr(L))}, st=s.st)
    c.used(s.I)
    rec = [e for e in s.I.eff[n:] if e.kind == "call" and name(e) == f["n"]]
    for k, e in enumerate(rec):
        a = e.args
        okf = a[1].op in ("lv", "rec", "ptr") and a[1].a[0] is petsc.FACTORY
        c.req(okf, "nested", "nested solver %d: factory" % (k + 1), e.where(), "is given %s instead of the caller's factory" % show(a[1]))
        c.req(a[2] is ptr(L), "nested", "nested solver %d: list of contexts" % (k + 1), e.where(), "is given %s" % show(a[2]))
        c.req(a[0] is not ptr(petsc.KSPV), "nested", "nested solver %d: solver" % (k + 1), e.where(), "is the outer solver again")
    # each composite type is descended into
    for q, m in (("PCBJACOBI", "PCBJacobiGetSubKSP"), ("PCASM", "PCASMGetSubKSP"), ("PCMG", "PCMGGetSmoother"), ("PCMG coarse", "PCMGGetCoarseSolve"), ("PCKSP", "PCKSPGetKSP")):
        got = [e for e in s.I.eff[n:] if e.kind == "call" and name(e) == m]
        hit = False
        for g in got:
            loc = g.args[-1].a[0] if g.args[-1].op == "ptr" else None
            for e in rec:
                if s.I.eff.index(e) > s.I.eff.index(g) and sat(conds(e) + conds(g)): hit = True
        c.req(hit, "nested", "%s: inner solvers are set up" % q, w, "are not set up")
    lv = [e for e in rec if loops(e)]
    for e in lv:
        L0 = loops(e)[-1]
        g = [x for x in s.I.eff[n:s.I.eff.index(e)] if x.kind == "call" and name(x) == "PCMGGetSmoother"]
        if not g: continue
        lv = g[-1].args[1]
        t = L0.T
        up = sub(lv, t) if t is not None else None
        dn = add(lv, t) if t is not None else None
        if L0.n is None or t is None: c.und("nested", "multigrid levels", e.where(), "not followed"); continue
        if not mentions(up, t): lo, hi = up, sub(add(up, L0.n), ONE)
        elif not mentions(dn, t): lo, hi = add(sub(dn, L0.n), ONE), dn
        else: c.und("nested", "multigrid levels", e.where(), "level %s not followed" % show(lv)); continue
        last = sub(hi, nl) if (nl := levels(s.I.eff[n:])) is not None else None
        first = numval(lo)
        coarse = any(x.kind == "call" and name(x) == "PCMGGetCoarseSolve" for x in s.I.eff[n:])
        good = last is not None and numval(last) == -1 and (first == 1 or first == 0 and not coarse)
        c.req(good, "nested", "multigrid levels", e.where(), "visits levels %s to %s; levels of the hierarchy: %s" % (show(lo), show(hi), show(nl) if nl is not None else "not asked"))
    # the context of a shell
    node = [e for e in s.I.eff[n:] if e.kind == "set" and e.base is mk("fld", L, "ctxlist")]
    bf = [e for e in s.I.eff[n:] if e.kind == "set" and e.base.op == "fld" and e.base.a[1] == "bfactory" and e.val is ptr(petsc.FACTORY)]
    c.req(bool(bf), "nested", "the context of a shell uses the caller's factory", w, "the factory of the new context is not the caller's")
    # the context registered is the new one
    reg = one_call(s.I.eff[n:], "PCShellSetContext")
    if reg is None or not node: c.bad("nested", "the context of a shell is registered", w, "PCShellSetContext is not called exactly once")
    else:
        c.req(reg.args[1] is node[-1].val, "nested", "the registered context is the new one", reg.where(), "registers %s, the new context is %s" % (show(reg.args[1]), show(node[-1].val)))
        if bf: c.req(bf[-1].base.a[0] is node[-1].val.a[0], "nested", "the factory is set in the new context", bf[-1].where(), "is set in %s" % show(bf[-1].base.a[0]))


def append(c, p):
    """a context is added at the head of the list and the rest of the list is kept"""
    f = petsc.own(p, "appendBlastedDataContext")
    if f is None: return
    w = "%s:%s" % (f["file"], f["line"])
    L, d = mk("obj", "list"), mk("obj", "newctx")
    I, st = Interp(p), State()
    st.cells[mk("fld", d, "bs")] = mk("sym", "given.bs")
    I.run(f, args={0: ("v", ptr(L)), 1: ("lv", d)}, st=st)
    c.used(I)
    head = st.cells.get(mk("fld", L, "ctxlist"))
    if head is None or head.op != "ptr" or head.a[1] is not ZERO: return c.bad("append", "head of the list", w, "the list does not start with the new context")
    node = head.a[0]
    old = load0(I, L, "ctxlist")
    nx = st.cells.get(mk("fld", node, "next"))
    c.req(nx is not None and "ctxlist" in show(nx) and nx is not head, "append", "rest of the list", w, "the new context is followed by %s" % (show(nx) if nx is not None else "nothing"))
    n = st.cells.get(mk("fld", L, "size"))
    c.req(n is not None and "size" in show(n) and numval(sub(n, load0(I, L, "size"))) == 1, "append", "number of contexts", w, "becomes %s" % (show(n) if n is not None else "unchanged"))
    b = st.cells.get(mk("fld", node, "bs"))
    c.req(b is mk("sym", "given.bs"), "append", "contents of the context", w, "a field of the new context is %s" % (show(b) if b is not None else "not copied"))


def load0(I, o, n): return mk("sym", mk("fld", o, n))


def localonly(c, p):
    """only matrices stored on this process are accepted; the block size is the matrix's"""
    f = petsc.own(p, "setup_localpreconditioner_blasted")
    w = "%s:%s" % (f["file"], f["line"])
    for t in ("seqaij", "seqbaij", "seqaijmkl", "seqbaijmkl", "mpiaij", "mpibaij", "mpiaijmkl", "mpibaijmkl", "shell"):
        s = petsc.Session(p)
        I = s.I

        def gettype(I, st, vs, line):
            petsc.out(I, st, vs[1], mk("str", t), line)
            return ZERO

        def strcmp(I, st, vs, line):
            a, b = (text(x) for x in vs[:2])
            if a is None or b is None: return mk("opq", "strcmp%d" % line)
            return num((a > b) - (a < b))
        I.models["MatGetType"] = gettype
        I.models["strcmp"] = strcmp
        I.models["PetscObjectTypeCompare"] = lambda I, st, vs, line: (petsc.out(I, st, vs[2], ONE, line), ZERO)[1]
        I.models["MatGetBlockSize"] = lambda I, st, vs, line: (petsc.out(I, st, vs[1], mk("sym", "matbs"), line), ZERO)[1]
        eff = s.call("setup_localpreconditioner_blasted", petsc.KSPV, s.ctx)
        c.used(I)
        r = s.ret
        if r is None: c.und("local", t, w, "not followed"); continue
        if t.startswith("seq"):
            c.req(r is ZERO, "local", "%s: accepted" % t, w, "returns %s" % show(r))
            b = s.st.cells.get(mk("fld", s.ctx, "bs"))
            want = mk("sym", "matbs") if "baij" in t else ONE
            c.req(b is want, "local", "%s: block size" % t, w, "is %s" % (show(b) if b is not None else "not set"))
        else: c.req(all(numval(v) not in (0, None) for g, v in leaves(r)), "local", "%s: refused" % t, w, "returns %s" % show(r))


def text(t):
    if t.op == "str": return t.a[0]
    if t.op == "ptr" and t.a[1] is ZERO and t.a[0].op == "str": return t.a[0].a[0]
    return None


def registered(c, p):
    f = petsc.own(p, "setup_localpreconditioner_blasted")
    if f is None: raise AnalysisBroken("no function setup_localpreconditioner_blasted")
    w = "%s:%s" % (f["file"], f["line"])
    s = petsc.Session(p)
    pcs = mk("obj", "itspc")
    s.I.models["KSPGetPC"] = lambda I, st, vs, line: (petsc.out(I, st, vs[1], ptr(pcs), line), ZERO)[1]
    s.I.models["MatGetBlockSize"] = lambda I, st, vs, line: (petsc.out(I, st, vs[1], mk("sym", "matbs"), line), ZERO)[1]
    eff = s.call("setup_localpreconditioner_blasted", petsc.KSPV, s.ctx)
    c.used(s.I)
    for fn, want in (("PCShellSetContext", s.ctx), ("PCShellSetSetUp", "compute_preconditioner_blasted"), ("PCShellSetApply", "apply_local_blasted"), ("PCShellSetDestroy", "cleanup_blasted")):
        e = one_call(eff, fn)
        if e is None: c.bad("registered", fn, w, "is not called exactly once"); continue
        a = e.args[1]
        ok = a is ptr(want) if isinstance(want, T) else want in show(a)
        c.req(e.args[0] is ptr(pcs) and ok, "registered", fn, e.where(), "is given %s" % ", ".join(map(show, e.args)))
    bs = s.st.cells.get(mk("fld", s.ctx, "bs"))
    fs = s.st.cells.get(mk("fld", s.ctx, "first_setup_done"))
    vals = {show(v) for g, v in leaves(bs)} if bs is not None else set()
    c.req({"matbs", "1"} <= vals, "registered", "block size", w, "is %s" % ", ".join(sorted(vals)))
    c.req(any(e.kind == "set" and e.base is mk("fld", s.ctx, "first_setup_done") and (e.val is FALSE or e.val is ZERO) for e in eff), "registered", "first use pending", w, "a context set up again would keep its old preconditioner")


def readvec(c, p):
    f = petsc.own(p, "readVecFromFile")
    if f is None: return
    s = petsc.Session(p)
    s.I.noinline = {g["q"] for g in p.funcs.values() if g["n"] == "readDenseMatrixMarket"}
    eff = s.call("readVecFromFile", mk("obj", "file"), mk("sym", "comm"), mk("obj", "mat"), mk("obj", "vec"))
    c.used(s.I)
    e = one_call(eff, "VecSetValues")
    w = "%s:%s" % (f["file"], f["line"])
    if e is None: return c.bad("entries", "readVecFromFile", w, "VecSetValues is not called exactly once")
    idx = e.args[2]
    st = [x for x in s.I.eff if x.kind in ("store", "fill") and idx.op == "ptr" and x.base is idx.a[0]]
    good = st and any(len(loops(x)) == 1 and x.off is x.val for x in st)
    (c.ok if good else c.und)(*(("entries", "readVecFromFile: positions", e.where()) + (() if good else ("not followed",))))


if __name__ == "__main__":
    main(check, "P21", "For every call to PETSc made by the interface, and each other function of it: the code is followed with that call (alone) reporting an error; no exit that reports success may then be reachable. Arrays obtained are handed back (same vector, same kind) on every exit that reports success, and not used afterwards. The callbacks are followed with all calls succeeding: what they pass to the preconditioner and report; every field of new contexts; options to settings for every type, sweeps and diagnostics; nested solvers; registration.",
         ["calls to PETSc do what their documentation says", "one failure at a time"])
