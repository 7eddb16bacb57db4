"""Everything acquired is released exactly once."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from own import *
from model import *
from ilu import VARIANTS, ILUS
import petsc
from frontend import REPO

ARRS = ("browptr", "bcolind", "vals", "diagind", "browendptr")
STOR = "blasted::SRMatrixStorage<const double, const int>"


def check(c, p):
    jobs = []
    for q in PT:
        for bs, st in VARIANTS:
            if q == "cscbgs" and bs > 1: continue
            for sc in ((False, True) if q in ILUS else (False,)):
                for ow in (False, True):
                    jobs.append((history, q, bs, st, sc, ow))
    cl = sorted({f["cls"] for f in p.funcs.values() if f.get("cls") and f["n"] == "compute" and derives(p, f["cls"], "blasted::Preconditioner")})
    made = set()
    for q in PT:
        for bs, st in VARIANTS:
            if q == "cscbgs" and bs > 1: continue
            i = Inst(p, q, bs, st, apply_inittype=1, fact_inittype=1)
            if i.cls: made.add(i.cls)
    for k in cl:
        if k not in made and not p.records[k].get("abstract"): jobs.append((standalone, k))
    fs = alloc_functions(p)
    for f in fs: jobs.append((local, f["key"]))
    for a, b in PAIRS:
        for f in p.funcs.values():
            if "body" in f and f["fn"].split("<")[0] == "blasted::" + a and f["rtc"] == "rec": jobs.append((pair, f["key"], b))
    jobs.append((lists,))
    jobs.append((context,))
    jobs.append((polymorphic,))
    jobs.append((noncopyable,))
    for k in sorted(p.records):
        if any(k.startswith("blasted::" + x) for x in MATRICES): jobs.append((matrix, k))
    c.par(p, jobs)
    c.need("once", 40)
    c.need("matching", 30)


def derives(p, k, b):
    return k != b and b in {x.split("<")[0] for x in p.bases(k)}


# ------------------------------------------------------------------ preconditioners
def finish(i, obj, cls, others=()):
    """destroy obj and then the matrices given to it; returns the effects"""
    n = len(i.I.eff)
    i.st.dead, i.st.live = None, []
    i.I.destroy(i.st, obj, cls, 0)
    for o, k in others: i.I.destroy(i.st, o, k, 0)
    return i.I.eff[n:]


def history(c, p, q, bs, stor, sc, ow):
    own = [matarr(a) for a in ARRS] if ow else []
    pre = {mk("fld", mk("fld", MAT, a), "owner"): (TRUE if ow else FALSE) for a in ARRS}
    for used in (False, True):
        i = Inst(p, q, bs, stor, presets=pre, scale=sc, apply_inittype=1, fact_inittype=2 if q in ILUS else 1, compute_precinfo=q == "ilu0")
        inst = "%s, %s, %s" % (i.name, "matrix owned" if ow else "matrix borrowed", "used twice" if used else "never used")
        if i.obj is None: return c.und("once", inst, "src/solverfactory.cpp", "no object")
        effs = list(i.created)
        if used:
            for k in range(2): effs += i.call("compute")
            for k in range(2): effs += i.call("apply", R, Z)
            rel = i.call("apply_relax", R, Z)
            if not i.threw: effs += rel
        effs += finish(i, i.obj, i.cls, [(MAT, STOR)])
        c.used(i.I)
        w = p.method(i.cls, "compute")
        lifetimes(c, inst, [e for e in effs if e.base is not i.obj or e.kind != "alloc"], "%s:%s" % (w["file"], w["line"]), owned=own, mine={i.obj})


class Alone:
    def __init__(self, p, cls, ow):
        self.p, self.cls = p, cls
        self.I, self.st = Interp(p, budget=900000), State()
        self.I.preset.update({mk("fld", mk("fld", MAT, a), "owner"): (TRUE if ow else FALSE) for a in ARRS})
        # a full matrix: everything stored belongs to it
        self.I.preset[mk("fld", MAT, "nbstored")] = mk("sym", mk("fld", MAT, "nnzb"))
        self.obj = mk("obj", "this")
        self.I.dyn[self.obj] = cls
        self.threw = False

    def call(self, name, args):
        f = self.p.method(self.cls, name)
        n = len(self.I.eff)
        self.st.dead = None
        self.I.run(f, args=args, this=self.obj, cls=self.cls, st=self.st)
        self.threw = self.st.dead == "throw"
        self.st.dead, self.st.live = None, []
        return self.I.eff[n:]


def ctors(p, k):
    return [f for f in p.funcs.values() if f.get("ctor") and f.get("cls") == k and "body" in f]


def standalone(c, p, k):
    """preconditioner classes the factory does not make"""
    for f in ctors(p, k):
        if not any(x["tc"] == "ref" and "SRMatrixStorage" in x["t"] for x in f["params"]): continue
        for ow in (False, True):
            for used in (False, True):
                a = Alone(p, k, ow)
                args = {}
                for n, x in enumerate(f["params"]):
                    if "SRMatrixStorage" in x["t"]: args[n] = ("lv", MAT)
                    elif x["tc"] == "bool": args[n] = ("v", TRUE)
                    elif x["tc"] == "int": args[n] = ("v", mk("sym", x["n"] or "a%d" % n))
                    elif x["tc"] == "enum" or "Init" in x["t"]: args[n] = ("v", ONE)
                a.I.run(f, args=args, this=a.obj, cls=k, st=a.st)
                a.st.dead, a.st.live = None, []
                short = k.split("::")[-1] if "<" not in k else k.replace("blasted::", "")
                inst = "%s, %s, %s" % (short, "matrix owned" if ow else "matrix borrowed", "used twice" if used else "never used")
                effs = list(a.I.eff)
                if used:
                    z = {0: ("v", mk("ptr", R, ZERO)), 1: ("v", mk("ptr", Z, ZERO))}
                    for m, v in (("compute", {}), ("compute", {}), ("apply", z), ("apply", z), ("apply_relax", z)):
                        e = a.call(m, v)
                        if not (m == "apply_relax" and a.threw): effs += e
                effs += finish(a, a.obj, k, [(MAT, STOR)])
                c.used(a.I)
                lifetimes(c, inst, effs, "%s:%s" % (f["file"], f["line"]), owned=[matarr(x) for x in ARRS] if ow else [], mine={a.obj})


# ------------------------------------------------------------------ functions
def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values(): yield from nodes(v)
    elif isinstance(x, list):
        for v in x: yield from nodes(v)


ALLOCFN = set(Interp.ALLOC)


def sites(f):
    out = []
    for x in nodes(f["body"]):
        if x.get("k") == "new": out.append(x["line"])
        elif x.get("k") in ("call", "mcall") and (x.get("fn") in ALLOCFN or (x.get("mn") == "allocate")): out.append(x["line"])
    return out


def alloc_functions(p):
    """free functions that acquire memory"""
    return [f for f in sorted(p.funcs.values(), key=lambda f: f["key"]) if "body" in f and not f.get("cls") and sites(f)]


def visible(r):
    """does this object outlive the function?"""
    return not (r.op == "obj" and ("#" in str(r.a[0]) or str(r.a[0]).startswith(("tmp.", "exc")))) and r.op not in ("heap", "heapobj")


def reach(I, st, effs, t):
    """blocks reachable from what outlives the function: the value returned and everything outside its frames"""
    out, seen = set(), set()

    def val(v):
        if v is None or not isinstance(v, T) or v in seen: return
        seen.add(v)
        if v.op == "ite": val(v.a[1]); val(v.a[2])
        elif v.op in ("ptr", "rec"):
            if v.a[0].op in ("heap", "heapobj"): out.add(v.a[0])
            obj(v.a[0])

    def obj(o):
        for loc, v in list(st.cells.items()):
            if root(loc) is o or loc is o: val(v)
    val(t)
    for loc, v in list(st.cells.items()):
        if visible(root(loc)): val(v)
    for e in effs:
        # given to a location that outlives the function and whose value is not followed to the end
        if e.kind == "set" and isinstance(e.val, T) and visible(root(e.base)) and (e.base not in st.cells or opaque(st.cells[e.base]) or st.cells[e.base].op == "sym" or loops(e)): val(e.val)
        if e.kind in ("store", "push") and e.base.op not in ("heap", "region") and isinstance(e.val, T): val(e.val)
    return out


def short(f): return f["fn"].replace("blasted::", "")


def full(I, f):
    """matrices given to the function are full: everything stored belongs to them"""
    for n, x in enumerate(f["params"]):
        o = mk("obj", "p%d" % n)
        I.preset[mk("fld", o, "nbstored")] = mk("sym", mk("fld", o, "nnzb"))


def local(c, p, key):
    f = p.funcs[key]
    I, st = Interp(p, budget=900000), State()
    full(I, f)
    r = I.run(f, st=st)
    c.used(I)
    w = "%s:%s" % (f["file"], f["line"])
    keep = reach(I, st, I.eff, r)
    passed = {a.a[0] for e in I.eff if e.kind == "call" for a in (e.args or []) if isinstance(a, T) and a.op == "ptr" and a.a[0].op in ("heap", "heapobj")
              and not (e.extra or {}).get("t", "").startswith("Eigen") and takes(e)}
    # what a context of the C interface holds is followed over its whole life in context()
    ctx = any(e.kind == "call" and e.name == "PCShellGetContext" for e in I.eff)
    lifetimes(c, short(f), I.eff, w, keep=keep | passed, borrowed=not ctx)


def takes(e):
    """does the external routine take over what it is given?"""
    return "unique_ptr" in (e.name or "") or "shared_ptr" in (e.name or "") or (e.name or "").startswith("ctor:")


PAIRS = [("copyRawBSRMatrix", "alignedDestroyRawBSRMatrix"), ("convert_BSR_to_BSC", "alignedDestroyCRawBSCMatrix"),
         ("convert_BSR_to_BSC_1based", "alignedDestroyCRawBSCMatrix"),
         ("getLowerTriangularView", "alignedDestroyRawBSRMatrixTriangularView"), ("getUpperTriangularView", "alignedDestroyRawBSRMatrixTriangularView")]


def pair(c, p, key, dname):
    """a function that returns a structure of arrays, followed by its documented destroyer"""
    f = p.funcs[key]
    I, st = Interp(p, budget=900000), State()
    full(I, f)
    r = I.run(f, st=st)
    inst = "%s, then released" % short(f)
    w = "%s:%s" % (f["file"], f["line"])
    st.dead, st.live = None, []
    if r is None or r.op != "rec": return c.und("once", inst, w, "the result is not followed: %s" % show(r) if r is not None else "no result")
    if strip(f["ret"]).startswith("blasted::SRMatrixStorage"):
        I.destroy(st, r.a[0], strip(f["ret"]), 0)
    else:
        ds = [g for g in p.funcs.values() if "body" in g and g["fn"].split("<")[0] == "blasted::" + dname]
        if not ds: return c.und("once", inst, w, "no %s" % dname)
        I.run(ds[0], args={0: ("lv", r.a[0])}, st=st)
    c.used(I)
    lifetimes(c, inst, I.eff, w)


# ------------------------------------------------------------------ matrix objects
MATRICES = ("BSRMatrix<", "BSRMatrixView<", "CSRMatrixView<", "MatrixView<", "SRMatrixView<")


def matrix(c, p, k):
    """every constructor of a matrix class, followed by destruction"""
    if p.records[k].get("abstract"): return
    M0 = mk("obj", "M0")
    for f in ctors(p, k):
        I, st = Interp(p, budget=900000), State()
        obj = mk("obj", "this")
        I.dyn[obj] = k
        args, owned, given = {}, [], []
        name = "%s(%s)" % (k.replace("blasted::", ""), ", ".join(x["n"] or "_" for x in f["params"]))
        for n, x in enumerate(f["params"]):
            t = strip(x["t"].replace("&&", "").replace("&", ""))
            o = mk("obj", "p%d" % n)
            if t.startswith("blasted::RawBSRMatrix"):
                # documented: storage handed over
                owned += [mk("deref", mk("fld", o, a)) for a in ARRS if a != "browendptr"]
            if t.startswith("blasted::SRMatrixStorage"): given.append((o, t))
            if t.startswith("blasted::SRMatrixStorage") and "&&" in x["t"]:
                for a in ARRS:
                    I.preset[mk("fld", mk("fld", o, a), "owner")] = TRUE
                    owned.append(mk("deref", mk("fld", mk("fld", o, a), "data")))
            elif t.startswith("blasted::SRMatrixStorage"):
                for a in ARRS: I.preset[mk("fld", mk("fld", o, a), "owner")] = FALSE
            if t == k:
                # copying another matrix: that one keeps what it has
                for a in ARRS: I.preset[mk("fld", mk("fld", mk("fld", o, "mat"), a), "owner")] = FALSE
        I.run(f, args=args, this=obj, cls=k, st=st)
        threw = st.dead == "throw"
        st.dead, st.live = None, []
        if not threw:
            I.destroy(st, obj, k, 0)
            for o, t in given: I.destroy(st, o, t, 0)
        c.used(I)
        lifetimes(c, name, I.eff, "%s:%s" % (f["file"], f["line"]), owned=owned)


# ------------------------------------------------------------------ the C interface's list of contexts
def lists(c, p):
    try:
        app, des = (one(p, n) for n in ("appendBlastedDataContext", "destroyBlastedDataList"))
        new = one(p, "newBlastedDataList")
    except AnalysisBroken as e:
        return c.und("once", "list of contexts", "src/blasted_petsc.cpp", str(e))
    w = "%s:%s" % (des["file"], des["line"])
    # an entry is appended at the head; the node allocated for it is held by the list
    I, st = Interp(p, budget=400000), State()
    L = mk("obj", "list")
    I.run(app, args={0: ("v", mk("ptr", L, ZERO))}, st=st)
    news = [e for e in I.eff if e.kind == "alloc" and e.base.op in ("heap", "heapobj")]
    head = st.cells.get(mk("fld", L, "ctxlist"))
    inst = "appending to the list of contexts"
    wa = "%s:%s" % (app["file"], app["line"])
    if len(news) != 1: c.und("list-nodes", inst, wa, "%d allocations" % len(news))
    else: c.req(head is mk("ptr", news[0].base, ZERO) and st.cells.get(mk("fld", news[0].base, "next")) is mk("ptr", mk("deref", mk("fld", L, "ctxlist")), ZERO), "list-nodes", inst, wa, "the node is not linked in at the head of the list")
    # destruction: one symbolic iteration of the traversal
    I, st = Interp(p, budget=400000), State()
    I.run(des, args={0: ("v", mk("ptr", L, ZERO))}, st=st)
    c.used(I)
    inst = "destroying the list of contexts"
    fr = [e for e in I.eff if e.kind == "free"]
    inl = [e for e in fr if loops(e)]
    node = [e for e in inl if not str(e.val).endswith(".infolist")]
    info = [e for e in inl if str(e.val).endswith(".infolist")]
    if len(node) != 1 or len(info) != 1:
        (c.bad if not any(e.kind == "call" for e in I.eff) and len(inl) < 2 else c.und)("list-nodes", inst, w, "the traversal releases %s; required the diagnostics and the node of each entry" % [str(e.val) for e in inl])
    else:
        nb = I.target(node[0].val, des["ret"])
        errs = []
        if info[0].val.a[0] is not mk("deref", mk("fld", nb, "infolist")): errs.append("releases the diagnostics of another entry (%s)" % info[0].val)
        late = [e for e in I.eff if e.seq > node[0].seq and e.kind in ("get", "set", "read", "store") and e.base is not None and mentions(e.base, nb) and e.base is not mk("fld", L, "ctxlist")]
        if late: errs.append("uses %s after releasing the node" % late[0].base)
        if info[0].seq > node[0].seq: errs.append("the diagnostics are released after the node that holds them")
        if any(conds(e) for e in inl): errs.append("only under a condition")
        head = mk("fld", L, "ctxlist")
        # the traversal's own variable: the list's head, or a local that starts from it and names the entry of the iteration
        run = [b for b in {e.base for e in I.eff if e.kind == "set" and loops(e) and e.base is not None} if b is head or ".%s)" % b in str(nb) and str(nb).startswith(str(head))]
        nx = [[e for e in I.eff if e.kind == "set" and loops(e) and e.base is b][-1] for b in run]
        if not any(e.val is mk("ptr", mk("deref", mk("fld", nb, "next")), ZERO) for e in nx): errs.append("the list is not advanced to the next entry")
        if head not in run and st.cells.get(head) not in (ZERO, NULLP): errs.append("the list keeps its entries after they are released")
        (c.bad("list-nodes", inst, node[0].where(), "; ".join(errs)) if errs else c.ok("list-nodes", inst, node[0].where()))
    fac = [e for e in fr if not loops(e)]
    own = cmp("==", mk("sym", mk("fld", L, "_defaultfactory")), ONE)
    good = len(fac) == 1 and fac[0].val is mk("ptr", mk("deref", mk("fld", L, "bfactory")), ZERO) and conds(fac[0]) == [own]
    (c.ok if good else c.bad if len(fac) != 1 or not any(opaque(x) for x in conds(fac[0])) else c.und)(*(("list-factory", inst, w) if good else ("list-factory", inst, w, "the factory must be released exactly when it is the library's own (found %s)" % [str(e) for e in fac])))


def context(c, p):
    """one context of the C interface from set up to clean up"""
    try:
        f = petsc.own(p, "compute_preconditioner_blasted")
        w = "%s:%s" % (f["file"], f["line"])
        opt = {"-blasted_async_sweeps": [num(3), num(5)], "-blasted_thread_chunk_size": num(100), "-blasted_use_symmetric_scaling": TRUE}
        for ptype in (0, 3):
            for info in (FALSE, TRUE):
                for used in (0, 1, 3):
                    s = petsc.Session(p, ptype=ptype, options=dict(opt, **{"-blasted_compute_preconditioner_info": info}))
                    r = s.I.run(petsc.own(p, "newBlastedDataContext"), st=s.st)
                    inst = "context of the C interface, type %d, %s diagnostics, set up %d times" % (ptype, "with" if info is TRUE else "no", used)
                    if r is None or r.op != "rec": return c.und("once", inst, w, "the new context is not followed")
                    s.st.dead, s.st.live = None, []
                    s.I.copyrec(s.st, s.ctx, r, "Blasted_node", 0)
                    s.st.cells[mk("fld", s.ctx, "bfactory")] = mk("ptr", petsc.FACTORY, ZERO)
                    s.st.cells[mk("fld", s.ctx, "bs")] = ONE
                    n = len(s.I.eff)
                    for k in range(used):
                        s.call("compute_preconditioner_blasted", petsc.PCV)
                        s.call("apply_local_blasted", petsc.PCV, petsc.RV, petsc.ZV)
                        s.call("relax_local_blasted", petsc.PCV, petsc.RV, petsc.XV, petsc.WV)
                    s.call("cleanup_blasted", petsc.PCV)
                    c.used(s.I)
                    # the diagnostics are held by the context and released with the list
                    il = s.st.cells.get(mk("fld", s.ctx, "infolist"))
                    keep = {v.a[0] for g_, v in pointers(il) if v.op == "ptr"} if il is not None else set()
                    lifetimes(c, inst, s.I.eff[n:], w, keep=keep)
    except AnalysisBroken as e:
        return c.und("once", "context of the C interface", "src/blasted_petsc.cpp", str(e))


# ------------------------------------------------------------------ types
def polymorphic(c, p):
    """objects released through a pointer to a base class have a virtual destructor there"""
    roots = {}
    for f in p.funcs.values():
        if "body" not in f: continue
        for x in nodes(f["body"]):
            if x.get("k") == "delete" and not x.get("arr"):
                t = strip(pointee(x["e"].get("t", "")))
                if t in p.records: roots.setdefault(t, "%s:%s" % (f["file"], x["line"]))
    # the factory hands out pointers to these
    for f in p.funcs.values():
        if f["n"] == "create_preconditioner" and f["rtc"] == "ptr":
            t = strip(pointee(f["ret"]))
            if t in p.records: roots.setdefault(t, "%s:%s" % (f["file"], f["line"]))
    for t, w in sorted(roots.items()):
        derived = [k for k in p.records if k != t and t in p.bases(k)]
        if not derived: continue
        ms = [m for b in p.bases(t) if b in p.records for m in p.records[b]["methods"] if m["n"].startswith("~")]
        c.req(any(m["virt"] for m in ms), "virtual-destructor", t, w, "released through this base class, whose destructor is not virtual")


def noncopyable(c, p):
    """a class whose destructor releases plain pointers cannot be copied member by member"""
    ks = []
    for f in sorted(p.funcs.values(), key=lambda f: f["key"]):
        if not f.get("dtor") or "body" not in f or not any(x.get("k") == "delete" or x.get("fn") in Interp.FREE or "estroy" in (x.get("fn") or "") for x in nodes(f["body"])): continue
        ks.append(f)
    hdrs = {}
    for f in ks:
        k = f["cls"]
        r = p.records[k]
        hdrs.setdefault(r.get("file") or f["file"], []).append((k, f))
    src = []
    use = []
    for h, l in hdrs.items():
        if h.endswith((".cpp", ".cxx")): continue
        src.append('#include "%s"' % h)
        for k, f in l: use.append((k, f))
    if not use: return c.und("copying", "classes", "", "no class found")
    from frontend import flags
    lines = src + ["#include <type_traits>", "#include <Eigen/Core>"]
    at = {}
    for k, f in use:
        kk = "std::is_copy_constructible<%s>::value" % k
        lines.append("static_assert(!%s, \"copyable\");" % kk); at[len(lines)] = (k, f, "construct")
        lines.append("static_assert(!std::is_copy_assignable<%s>::value, \"assignable\");" % k); at[len(lines)] = (k, f, "assign")
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "w.cpp")
        open(fn, "w").write("\n".join(lines) + "\n")
        r = subprocess.run(["/usr/lib/llvm-18/bin/clang++", "-fsyntax-only", "-ferror-limit=0", fn] + flags(), capture_output=True, text=True)
    import re
    failed = {int(m.group(1)) for m in re.finditer(r"w\.cpp:(\d+):\d+: error: static assertion", r.stderr)}
    other = [x for x in r.stderr.splitlines() if "error:" in x and "static assertion" not in x]
    for n, (k, f, what) in at.items():
        w = "%s:%s" % (f["file"], f["line"])
        inst = "%s: %s" % (k, what)
        if other: c.und("copying", inst, w, "the witness does not compile: %s" % other[0])
        elif n in failed and what == "construct" and user_copy(p, k): c.ok("copying", inst, w)
        else: c.req(n not in failed, "copying", inst, w, "the destructor releases plain pointers, but objects can be copied member by member")


def user_copy(p, k): return any(f.get("ctor") and f.get("cls") == k and len(f["params"]) == 1 and strip(f["params"][0]["t"].replace("&", "")) == k for f in p.funcs.values())


if __name__ == "__main__":
    main(check, "P13", "Typestate of every block of memory over whole histories (construct, compute twice, apply twice, relax, destroy; also never used) of every preconditioner class, block size and matrix ownership; over every function that acquires memory, on every combination of its branch conditions and explicit exceptions; over each acquiring function followed by its documented destroyer; over every matrix constructor followed by destruction. Each block is released once, at its start, by the matching routine, and not used afterwards. Compile-time witnesses: classes releasing plain pointers cannot be copied; classes deleted through a base have virtual destructors.",
         ["standard containers release their own storage", "exceptions thrown by failing allocations are not followed", "copied and converted matrices are full (number stored equals number of non-zeros), as documented"])
