"""Wrapped data is never released or owned; owned data has exactly one owner."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from own import *
from model import *
from ilu import VARIANTS, ILUS
import P13 as p13
from P13 import ARRS, STOR, nodes, short, visible

VIEW = "blasted::ArrayView<"


def holders(p):
    """classes that contain array views, directly or through members and bases"""
    own = {k for k in p.records if k.startswith(VIEW)}
    more = True
    while more:
        more = False
        for k, r in p.records.items():
            if k in own: continue
            if any(strip(f["t"]) in own for f in r.get("fields", [])) or any(b in own for b in p.bases(k) if b != k):
                own.add(k); more = True
    return own


def mentioned(t): return "SRMatrixStorage<" in t or "ArrayView<" in t


def check(c, p):
    own = holders(p)
    jobs = [(witness,)]
    helper = {m["key"] for r in p.records.values() for m in r.get("methods", ()) if m["acc"] == 2}     # only run as part of the others
    for f in sorted(p.funcs.values(), key=lambda f: f["key"]):
        if f["key"] in helper: continue
        if "body" not in f or f.get("dtor") and not (f.get("cls") or "").startswith(VIEW): continue
        k = f.get("cls")
        moved = any("&&" in x["t"] and mentioned(x["t"]) and not x["t"].startswith("const ") for x in f["params"])
        if k in own and (k.startswith(VIEW) or f.get("ctor") and not derives(p, k, "blasted::Preconditioner") or not derives(p, k, "blasted::Preconditioner") and touches(f)) or moved and not (k and derives(p, k, "blasted::Preconditioner")) and f["n"] != "create_preconditioner" and not f["n"].startswith("create_srprec") or mentioned(f["ret"]) and not (k and derives(p, k, "blasted::Preconditioner")):
            for ow in (False, True): jobs.append((function, f["key"], ow))
    for q in PT:
        for bs, st in VARIANTS:
            if q == "cscbgs" and bs > 1: continue
            for ow in (False, True): jobs.append((created, q, bs, st, ow))
    c.par(p, jobs)
    c.need("one-owner", 40)
    c.need("borrowed", 40)
    c.need("no-copies", 1)


def derives(p, k, b): return b in {x.split("<")[0] for x in p.bases(k)}


def touches(f):
    """does the method do anything to its views but read and write their elements?"""
    return any(x.get("k") in ("mcall", "call") and x.get("mn") in ("resize", "wrap", "take_control") for x in nodes(f["body"]))


# ------------------------------------------------------------------ state of all views
class World:
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.rowends = True     # may the array of row ends own its memory?
        self.init = {}      # view -> (block, owner)

    def give(self, v, own, null=False):
        self.I.preset[mk("fld", v, "owner")] = own
        self.init[v] = (mk("deref", mk("fld", v, "data")), own)

    def give_all(self, p, obj, rn, own, seen=()):
        """all views inside an object"""
        if rn.startswith(VIEW): return self.give(obj, own)
        r = p.records.get(rn)
        if r is None or rn in seen: return
        for b in p.bases(rn):
            if b != rn and b in p.records:
                for f in p.records[b].get("fields", []): self.give_field(p, obj, f, own, seen + (rn,))
        for f in r.get("fields", []): self.give_field(p, obj, f, own, seen + (rn,))

    def give_field(self, p, obj, f, own, seen):
        t = strip(f["t"])
        if f["n"] == "browendptr" and not self.rowends: own = FALSE
        if mentioned(t) and not t.endswith(("*", "&")): self.give_all(p, mk("fld", obj, f["n"]), t, own, seen)

    def final(self, extra=()):
        """{view: (data value, owner value)} of all views that outlive the call"""
        out = {}
        vs = set(self.init)
        for loc in self.st.cells:
            if loc.op == "fld" and loc.a[1] == "owner" and mk("fld", loc.a[0], "data") in self.st.cells: vs.add(loc.a[0])
        for v in vs:
            r = root(v)
            if not (visible(r) or r.op == "heapobj" or r in extra): continue
            o = self.st.cells.get(mk("fld", v, "owner"))
            d = self.st.cells.get(mk("fld", v, "data"))
            if o is None: o = self.init[v][1] if v in self.init else mk("sym", mk("fld", v, "owner"))
            if d is None: d = mk("ptr", mk("deref", mk("fld", v, "data")), ZERO)
            out[v] = (d, o)
        return out


def tr(x): return x is ONE or x is TRUE
def fa(x): return x is ZERO or x is FALSE


def judge(c, inst, w, W, effs, handed=(), gone=(), ret=None, extra=(), f_const=True):
    """handed: blocks given by the caller to be owned; gone: objects destroyed by the call"""
    for b in handed:
        if b.op != "deref" or b.a[0].op != "fld" or f_const: continue
        left = W.st.cells.get(b.a[0])
        if left is None or left.op != "null": c.bad("handed-over", inst, w, "%s keeps pointing to the array it has handed over" % show(b.a[0]))
        else: c.ok("handed-over", "%s: %s" % (inst, show(b.a[0])), w)
    fin = {v: x for v, x in W.final(extra).items() if root(v) not in gone}
    owned0 = {b for v, (b, o) in W.init.items() if tr(o)} | set(handed)
    lent = {b for v, (b, o) in W.init.items() if fa(o)} - set(handed)
    freed, allocs = {}, set()
    for e in effs:
        if e.kind == "alloc" and e.base.op in ("heap", "heapobj"): allocs.add(e.base)
        if e.kind == "free":
            for g, v in pointers(e.val):
                if v.op == "null": continue
                freed.setdefault(v.a[0] if v.op == "ptr" else v, []).append((e, conds(e) + list(g)))
    owners, held = {}, {}
    for v, (d, o) in sorted(fin.items(), key=lambda x: x[0].id):
        for g, x in pointers(d):
            if x.op == "null": continue
            b = x.a[0] if x.op == "ptr" else x
            held.setdefault(b, []).append(v)
            if fa(o): continue
            owners.setdefault(b, []).append((v, o, g, x.a[1] if x.op == "ptr" else None))
    bad = []
    und = []
    for b, vs in owners.items():
        inside = [x for x in vs if x[3] is not None and x[3] is not ZERO]
        if inside: bad.append("%s owns memory from the middle of a block (%s)" % (inside[0][0], show(inside[0][3])))
        soft = [x for x in vs if not tr(x[1])]
        if soft: und.append("ownership of %s by %s depends on %s" % (show(b), soft[0][0], show(soft[0][1])))
        if len([x for x in vs if tr(x[1])]) > 1: bad.append("%s has several owners: %s" % (show(b), ", ".join(str(x[0]) for x in vs)))
        if b in freed: bad.append("%s is still owned by %s after its release at %s" % (show(b), vs[0][0], freed[b][0][0].where()))
        elif b not in owned0 and b not in allocs and any(tr(x[1]) for x in vs):
            (und if opaque(b) else bad).append("%s becomes the owner of memory that is not its own (%s)" % (vs[0][0], show(b)))
    for b, l in freed.items():
        if opaque(b): und.append("releases %s at %s" % (show(b), l[0][0].where()))
        elif b in lent or (b not in owned0 and b not in allocs and b.op == "deref"): bad.append("releases memory it does not own (%s) at %s" % (show(b), l[0][0].where()))
        elif len(l) > 1 and not exclusive([x[1] for x in l]): bad.append("releases %s twice" % show(b))
        elif b in held and b not in owners: bad.append("%s keeps pointing to the block released at %s" % (held[b][0], l[0][0].where()))
    if handed or any(tr(o) for b, o in W.init.values()):
        for b in sorted(owned0, key=lambda t: t.id):
            if b not in freed and b not in owners: bad.append("nobody owns %s any more" % show(b))
    for b in sorted(allocs, key=lambda t: t.id):
        if b in held and b not in owners and b not in freed: bad.append("the new array held by %s is owned by nobody" % held[b][0])
    for m in bad: c.bad("one-owner" if owned0 or "several" in m else "borrowed", inst, w, m)
    if not bad:
        for m in und: c.und("one-owner", inst, w, m)
        if not und: c.ok("one-owner" if owned0 or allocs else "borrowed", inst, w)
    return fin


def exclusive(gs):
    for i, a in enumerate(gs):
        for b in gs[i + 1:]:
            if not any(not_(x) in b for x in a): return False
    return True


# ------------------------------------------------------------------ functions and constructors
def function(c, p, key, ow):
    f = p.funcs[key]
    I, st = Interp(p, budget=900000), State()
    W = World(I, st)
    own = TRUE if ow else FALSE
    k = f.get("cls")
    this = mk("obj", "this") if k else None
    if k: I.dyn[this] = k
    if k and k.startswith("blasted::BSRMatrix<"): W.rowends = False    # always inside the row pointers
    if k and not f.get("ctor"): W.give_all(p, this, k, own)
    handed, args = [], {}
    any_ = bool(W.init)
    for n, x in enumerate(f["params"]):
        t = strip(x["t"].replace("&&", "").replace("&", ""))
        o = mk("obj", "p%d" % n)
        if mentioned(t) or t in p.records and t in holders(p):
            if "*" not in x["t"]:
                W.give_all(p, o, t, own); any_ = True
            I.preset[mk("fld", o, "nbstored")] = mk("sym", mk("fld", o, "nnzb"))
        elif t.startswith("blasted::RawBSRMatrix") and f.get("ctor"):
            # documented: the arrays are handed over
            handed += [mk("deref", mk("fld", o, a)) for a in ARRS if a != "browendptr"]
        elif x["tc"] == "bool" and f.get("ctor") and (k or "").startswith(VIEW):
            args[n] = ("v", own); any_ = True
            if ow: handed += [mk("deref", mk("sym", "p%d" % m)) for m, y in enumerate(f["params"]) if y["tc"] == "ptr"]
    if f["n"] == "take_control": handed += [mk("deref", mk("sym", "p%d" % m)) for m, y in enumerate(f["params"]) if y["tc"] == "ptr"]
    if ow and not any_: return
    # raw pointer parameters: memory of the caller
    for n, x in enumerate(f["params"]):
        if x["tc"] == "ptr" and n not in args:
            b = mk("obj", "arg%d" % n)
            args[n] = ("v", mk("ptr", b, ZERO))
            handed = [b if h is mk("deref", mk("sym", "p%d" % n)) else h for h in handed]
    if (k or "").startswith(VIEW):
        for n, x in enumerate(f["params"]):
            if x["tc"] == "int": args[n] = ("v", mk("sym", "p%d" % n))
    r = I.run(f, args=args, this=this, cls=k, st=st)
    c.used(I)
    inst = "%s(%s), %s" % (short(f), ", ".join(x["n"] or "_" for x in f["params"]), "owning" if ow else "wrapping")
    w = "%s:%s" % (f["file"], f["line"])
    if st.dead == "throw": return c.ok("throws", inst, w)
    extra = {root(r.a[0])} if r is not None and r.op == "rec" else set()
    judge(c, inst, w, W, I.eff, handed, gone={this} if f.get("dtor") else (), extra=extra, f_const=any("const blasted::Raw" in x["t"] for x in f["params"]))
    if (k or "").startswith(VIEW): member(c, p, f, inst, w, W, st, I, ow)


def member(c, p, f, inst, w, W, st, I, ow):
    """the members of an array view after each of its operations"""
    this = mk("obj", "this")
    if f.get("dtor"): return
    cell = lambda n, o=this: st.cells.get(mk("fld", o, n))
    params = [x["tc"] for x in f["params"]]
    d, l, o = cell("data"), cell("len"), cell("owner")
    want = None
    if f.get("ctor"):
        if not params: want = (lambda d: d is not None and d.op == "null", ZERO, FALSE)
        elif "ArrayView" in f["params"][0]["t"]: want = (lambda d: d is mk("ptr", mk("deref", mk("fld", mk("obj", "p0"), "data")), ZERO), mk("sym", mk("fld", mk("obj", "p0"), "len")), TRUE if ow else FALSE)
        elif params == ["int"]: want = ("new", mk("sym", "p0"), TRUE)
        elif params == ["ptr", "int"]: want = (lambda d: d is mk("ptr", mk("obj", "arg0"), ZERO), mk("sym", "p1"), FALSE)
        elif params == ["ptr", "int", "bool"]: want = (lambda d: d is mk("ptr", mk("obj", "arg0"), ZERO), mk("sym", "p1"), TRUE if ow else FALSE)
    elif f["n"] == "resize": want = ("new", mk("sym", "p0"), TRUE)
    elif f["n"] in ("wrap", "take_control"): want = (lambda d: d is mk("ptr", mk("obj", "arg0"), ZERO), mk("sym", "p1"), FALSE if f["n"] == "wrap" else TRUE)
    if want is None: return
    errs = []
    if want[0] == "new":
        al = [e for e in I.eff if e.kind == "alloc"]
        if len(al) != 1 or d is not mk("ptr", al[0].base, ZERO): errs.append("the data is not the newly allocated array (%s)" % (show(d) if d is not None else "unset"))
        else:
            sz = num({"double": 8, "int": 4, "float": 4}[f["cls"].split("<", 1)[1][:-1].replace("const ", "")])
            if al[0].val is not mul(want[1], sz): errs.append("allocates %s bytes, required %s" % (show(al[0].val), show(mul(want[1], sz))))
    elif not want[0](d): errs.append("the data pointer is %s" % (show(d) if d is not None else "unset"))
    if l is not want[1]: errs.append("the length is %s, required %s" % (show(l) if l is not None else "unset", show(want[1])))
    if not (tr(o) if want[2] is TRUE else o is not None and fa(o)): errs.append("the ownership flag is %s" % (show(o) if o is not None else "unset"))
    if errs: c.bad("members", inst, w, "; ".join(errs))
    else: c.ok("members", inst, w)


# ------------------------------------------------------------------ preconditioners
def created(c, p, q, bs, stor, ow):
    """the matrix given to the factory ends up in the preconditioner, with its ownership"""
    pre = {mk("fld", mk("fld", MAT, a), "owner"): (TRUE if ow else FALSE) for a in ARRS}
    i = Inst(p, q, bs, stor, presets=pre, scale=False, apply_inittype=1, fact_inittype=2 if q in ILUS else 1)
    inst = "%s, %s" % (i.name, "matrix owned" if ow else "matrix borrowed")
    if i.obj is None: return c.und("one-owner", inst, "src/solverfactory.cpp", "no object")
    W = World(i.I, i.st)
    for a in ARRS: W.init[mk("fld", MAT, a)] = (matarr(a), TRUE if ow else FALSE)
    c.used(i.I)
    m = p.method(i.cls, "compute")
    w = "%s:%s" % (m["file"], m["line"])
    fin = judge(c, inst, w, W, i.created)
    # and it is the preconditioner that has it
    errs = []
    for a in ARRS:
        vs = [v for v, (d, o) in fin.items() if root(v) is root(i.obj) and any(x.op == "ptr" and x.a[0] is matarr(a) and x.a[1] is ZERO for g, x in pointers(d))]
        if not vs: errs.append("%s is not in the preconditioner" % a)
        elif ow and not any(tr(fin[v][1]) for v in vs): errs.append("the preconditioner does not own %s" % a)
    (c.bad if errs else c.ok)(*(("kept", inst, w) + (("; ".join(errs),) if errs else ())))


# ------------------------------------------------------------------ types
def witness(c, p):
    import re, subprocess, tempfile
    from frontend import flags
    lines = ['#include "srmatrixdefs.hpp"', '#include "blockmatrices.hpp"', "#include <type_traits>"]
    at = {}
    ks = sorted(k for k in p.records if k.startswith((VIEW, "blasted::SRMatrixStorage<")))
    for k in ks:
        lines.append("static_assert(!std::is_copy_constructible<%s>::value, \"copy\");" % k); at[len(lines)] = k, "cannot be copied"
        lines.append("static_assert(!std::is_copy_assignable<%s>::value, \"assign\");" % k); at[len(lines)] = k, "cannot be copied by assignment"
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "w.cpp")
        open(fn, "w").write("\n".join(lines) + "\n")
        r = subprocess.run(["/usr/lib/llvm-18/bin/clang++", "-fsyntax-only", "-ferror-limit=0", fn] + flags(), capture_output=True, text=True)
    failed = {int(m.group(1)) for m in re.finditer(r"w\.cpp:(\d+):\d+: error: static assertion", r.stderr)}
    other = [x for x in r.stderr.splitlines() if "error:" in x and "static assertion" not in x]
    for n, (k, what) in at.items():
        r = p.records[k]
        w = "%s:%s" % (r.get("file"), r.get("line"))
        inst = "%s %s" % (k, what)
        deep = any(f.get("ctor") and f.get("cls") == k and len(f["params"]) == 1 and x_const_ref(f["params"][0], k) and "body" in f for f in p.funcs.values())
        if other: c.und("no-copies", inst, w, "the witness does not compile: %s" % other[0])
        elif n in failed and deep: c.ok("no-copies", inst, w)       # a copy constructor of its own: judged as a function
        else: c.req(n not in failed, "no-copies", inst, w, "it can be copied member by member, which makes two owners of one array")


def x_const_ref(x, k): return "&&" not in x["t"] and strip(x["t"].replace("&", "")) == k


if __name__ == "__main__":
    main(check, "P14", "Ownership state of every array view (data, length, flag) after every operation of ArrayView; after every constructor, conversion, move, share and view-extraction of the matrix storage and matrix classes; and after the factory creates each preconditioner; each with owning and with wrapping inputs. No block has two owners, wrapped memory is never released or owned, what was owned stays owned by exactly one view or is released, no view keeps pointing to a released block. Compile-time witnesses: views and matrix storage cannot be copied.",
         ["arrays handed over as a RawBSRMatrix become the matrix's own, as documented", "self-moves are not considered"])
