#!/usr/bin/env python3
"""P16: index expressions stay within the arrays they index, and internal buffers are large enough."""
import os, sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import re
from ilu import *
from bounds import *
import interp as IN
import frontend

ACC, LEN = "access", "view-length"
OTHERS = ("jacobi", "gs", "sgs", "cscbgs", "level_sgs", "none")
BYTES = {"int": 4, "unsigned int": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8, "char": 1, "bool": 1}


def check(c, p):
    jobs = []
    for bs, stor in VARIANTS:
        for prec in ILUS: jobs.append((ilu_cfg, prec, bs, stor))
        for prec in OTHERS:
            if prec == "cscbgs" and bs > 1: continue
            jobs.append((cfg, prec, bs, stor))
    for f in p.funcs.values():
        if "body" not in f or "/repo/" not in f["file"] and not f["file"].startswith(frontend.REPO): continue
        q = f["q"].replace("blasted::", "")
        if q.startswith(CLASSES) or f["n"] in FREE: jobs.append((entry, f["key"]))
    c.par(p, jobs)
    c.need(ACC, 100)


FIELDS = ("browptr", "browendptr", "bcolind", "diagind", "vals", "bcolptr", "browind")


CLASSES = ("BSRMatrix<", "BSRMatrixView<", "CSRMatrixView<", "SRMatrixView<", "SRMatrixStorage<", "Reordering<", "ReorderingScaling<", "ColumnAdjacency<", "BLAS_", "ReorderedAsyncILU0_SRPreconditioner<")
FREE = ("areEqual", "bcsc_gemv3", "computeLevels", "convert_BSR_to_BSC", "convert_BSR_to_BSC_1based", "copyRawBSRMatrix", "diagonal_dominance", "getLowerTriangularView",
        "getUpperTriangularView", "getScalingVector", "left_SAI_pattern", "left_incomplete_SAI_pattern", "share_with_const", "sortBlockInnerDimension", "compute_ILU_positions_CSR_CSR",
        "getSRMatrixFromCOO")
VECTORS = ("apply", "gemv3", "matrix_apply", "bcsc_gemv3", "getScalingVector")


class Facts:
    """what is known of each array, found by what the array is"""

    def __init__(self, I, effs, bs, known={}):
        self.I, self.bs, self.known, self.roles, self.seen = I, bs, dict(known), {}, {}
        self.own, self.ranges = {}, {}
        for e in effs:
            if e.kind == "alloc" and isinstance(e.val, T) and e.base not in self.known:
                s = self.elements(e)
                l = lin(s) if s is not None else None
                if l and len(l[1]) == 1 and next(iter(l[1])).op == "opq": self.roles.setdefault(next(iter(l[1])), ("N", next(iter(l[1]))))
                if s is not None: self.own.setdefault(e.base, Arr(s)).size = s
                else: self.own[e.base] = Arr(None)

    def elements(self, e):
        """allocated size in scalars"""
        if e.name in ("aligned_alloc", "malloc"):
            us = {BYTES.get(s, 8 if s.startswith("Eigen") else None) for s in self.I.ety.get(e.base, ())}
            if len(us) != 1 or None in us: return None
            return scale(e.val, Fraction(1, us.pop()))
        if e.name in ("new[]", "vector", "vector.resize", "vector.assign"):
            st = {stride(s) for s in self.I.ety.get(e.base, ())}
            if len(st) > 1: return None
            return scale(e.val, st.pop() if st else 1)
        if e.name == "allocator": return e.val
        return None

    def role(self, a):
        """("n" or "N", matrix) for the number of rows or of stored entries of a matrix"""
        return self.roles.get(a)

    def range(self, a):
        """(least, greatest) value of an integer that is neither a counter nor an entry of an array"""
        r = self.ranges.get(a)
        if r is None and a.op == "sym" and isinstance(a.a[0], T) and a.a[0].op == "fld" and a.a[0].a[1] == "len":
            o = a.a[0].a[0]
            v = self.of(mk("deref", mk("fld", o, "data"))) if o.op == "fld" and o.a[1] in FIELDS else None
            if v is not None and v.size is not None: r = (v.size, v.size)
        if r is None and self.limit:
            X, n, nb, bs = self.limit
            inside = lambda x: x.op == "sym" and isinstance(x.a[0], T) and x.a[0].op == "fld" and x.a[0].a[1] in ("rowind", "colind") and X in set(walk(x))
            if inside(a): r = (ZERO, sub(n, ONE))
            elif a.op == "call" and a.a[0] == "ptrdiff" and a.a[1].op == "ptr" and a.a[2].op == "ptr" and a.a[1].a[0].op == "opq" and "find" in str(a.a[1].a[0].a[0]) and a.a[2].a[1] is ZERO:
                v = self.of(a.a[2].a[0])           # found, or the program has ended
                if v is not None and v.size is not None: r = (ZERO, sub(v.size, ONE))
            elif a.op == "call" and a.a[0] == "idiv" and a.a[2] is num(bs) and inside(a.a[1]): r = (ZERO, sub(nb, ONE))
        return r

    limit = None

    def copies(self, effs):
        """an array filled entry by entry from another has the values of that one"""
        by = {}
        for e in effs:
            if e.kind == "store" and e.base in self.own: by.setdefault(e.base, []).append(e)
        for b, es in by.items():
            src = set()
            for e in es:
                v, L = e.val, e.loops()
                if not isinstance(v, T) or v.op != "load" or v.a[1] is not e.off: src = None; break
                src.add(v.a[0])
            if src and len(src) == 1:
                a = self.of(src.pop())
                if a is not None and b not in self.known: self.known[b] = Arr(self.own[b].size, a.lo, a.hi, a.mono)

    def matrix(self, X, arr, n=None, col=False):
        """well-formedness of the matrix held in X"""
        nm = ("bcolptr", "browind") if col else ("browptr", "bcolind")
        bp, ci = arr(nm[0]), arr(nm[1])
        n = n if n is not None else mk("sym", mk("fld", X, "nbcols" if col else "nbrows"))
        N = load(bp, n)
        self.roles[n], self.roles[N] = ("n", X), ("N", X)
        for q in ("nnzb", "nbstored"):
            self.roles[mk("sym", mk("fld", X, q))] = ("N", X)
        K = self.known
        K.setdefault(bp, Arr(add(n, ONE), lambda x: (ZERO, True), lambda x: (N, True), mono=True))
        K.setdefault(arr("browendptr"), Arr(n, lambda x: load(bp, x), lambda x: load(bp, add(x, ONE))))
        K.setdefault(ci, Arr(N, lambda x: ZERO, lambda x: sub(n, ONE)))
        K.setdefault(arr("diagind"), Arr(n, lambda x: load(bp, x), lambda x: sub(load(bp, add(x, ONE)), ONE)))
        K.setdefault(arr("vals"), Arr(scale(N, self.bs * self.bs)))
        return n, N

    def of(self, b):
        a = self.known.get(b)
        if a is not None: return a
        if b in self.seen: return self.seen[b]
        a = self.own.get(b)
        if a is None and b.op == "deref" and b.a[0].op == "fld":
            f = b.a[0]
            via = f.a[1] == "data" and isinstance(f.a[0], T) and f.a[0].op == "fld" and f.a[0].a[1] in FIELDS
            g = f.a[0] if via else f
            if g.a[1] in FIELDS:
                X = g.a[0]
                mkarr = (lambda nm: mk("deref", mk("fld", mk("fld", X, nm), "data"))) if via else (lambda nm: mk("deref", mk("fld", X, nm)))
                self.matrix(X, mkarr, col=g.a[1] in ("bcolptr", "browind") or any(mkarr(q) in self.I.ety for q in ("bcolptr", "browind")))
                a = self.known.get(b)
        if a is None and b.op == "region":
            t = self.I.lty.get(b.a[0])
            if t:
                k = re.search(r"\[(\d+)\]$", IN.strip(t)) or re.search(r"^std::array<.*, (\d+)(?:UL)?>$", IN.strip(t))
                if k: a = Arr(num(int(k.group(1))))
        self.seen[b] = a
        return a


COUNTED = ("compute_ILU_positions_CSR_CSR", "convert_BSR_to_BSC")


def entry(c, p, key):
    """one function, on any well-formed arguments"""
    f = next(g for g in p.funcs.values() if g["key"] == key)
    m = re.search(r"double, (?:const )?int, (\d+)", f["fn"]) or re.search(r"double, (?:const )?int, (\d+)", f["q"])
    bs = int(m.group(1)) if m else 1
    name = f["key"].split("|")[0].strip().replace("blasted::", "").replace("Eigen::", "").replace("double, int", "..").split("(")[0]
    I = IN.Interp(p, budget=400000)
    vecs, modes = {}, [{}]
    if "Reordering" in f["q"]:
        modes = [dict(z) for z in product(*[[(k, ("v", num(v))) for v in (0, 1)] for k, q in enumerate(f["params"]) if "RSApply" in q["t"]])]
        if f["n"] == "setOrdering": vecs = {k: mk("obj", "v_" + q["n"]) for k, q in enumerate(f["params"]) if "*" in q["t"]}
    if f["n"] in VECTORS:
        for k, q in enumerate(f["params"]):
            if re.match(r"(const )?double \*", q["t"]): vecs[k] = mk("obj", "v_" + q["n"])
    for mode in modes: I.run(f, args={**{k: ("v", mk("ptr", b, ZERO)) for k, b in vecs.items()}, **mode}, this=mk("obj", "T"), cls=f.get("cls"), st=IN.State())
    c.used(I)
    F = Facts(I, I.eff, bs)
    for e in I.eff:
        if e.base is not None and e.kind in ("read", "store"): F.of(e.base)
    ns = [a for a, r in F.roles.items() if r[0] == "n"]
    if len(ns) == 1:
        for b in vecs.values(): F.known[b] = vec(ns[0], bs)
    arguments(F, f, bs)
    if f["n"] == "getSRMatrixFromCOO": coordinate(F, f, bs)
    F.copies(I.eff)
    if "Reordering" in f["q"]: orders(F, I, f, ns)
    lost = []
    accesses(c, name, I, I.eff, F, bs, lost)
    lengths(c, name, I, I.eff, F, lost)
    if lost: c.und(ACC, name + ": rest", p.loc(f), "%d accesses not decided, first: %s" % (len(lost), "; ".join(lost[:2])))


def coordinate(F, f, bs):
    """entries in coordinate form lie inside the square matrix, whose size is a multiple of the block size"""
    X = mk("obj", "p0")
    n = mk("sym", mk("fld", X, "nrows"))
    nb = n if bs == 1 else mk("call", "idiv", n, num(bs))
    F.roles[nb] = ("n", X)
    if bs > 1: F.ranges[n] = (scale(nb, bs), scale(nb, bs))
    nnz = mk("sym", mk("fld", X, "nnz"))
    F.roles[nnz] = ("N", X)
    F.limit = (X, n, nb, bs)
    F.known[mk("region", mk("fld", X, "rowptr"))] = Arr(add(n, ONE), lambda x: (ZERO, True), lambda x: (nnz, True), mono=True)
    F.known[mk("region", mk("fld", X, "entries"))] = Arr(nnz)


def arguments(F, f, bs):
    """what a caller has to pass: a well-formed structure; places inside the matrix"""
    ints = {q["n"]: mk("sym", mk("obj", "p%d" % k)) for k, q in enumerate(f["params"]) if q["t"].endswith("int")}
    ptrs = {q["n"]: mk("obj", "p%d" % k) for k, q in enumerate(f["params"]) if re.search(r"int \*", q["t"])}
    if f["n"] in ("BSRMatrix", "setStructure"):
        n = next((ints[q] for q in ints if "rows" in q), None)
        P, C = (next((ptrs[q] for q in ptrs if w in q), None) for w in ("ptr", "bcind"))
        if n is not None and P is not None and C is not None:
            F.matrix(mk("obj", "given"), lambda nm: {"browptr": P, "bcolind": C}.get(nm, mk("obj", "given " + nm)), n=n)
    if f["n"] in ("submitBlock", "updateBlock", "updateDiagBlock"):
        n = next((a for a, r in F.roles.items() if r[0] == "n"), None)
        if n is None: return
        k = next(i for i, q in enumerate(f["params"]) if "*" in q["t"])
        size = num(bs) if bs > 1 else mk("sym", mk("obj", "p%d" % (k + 1)))
        for i in range(k):
            F.ranges[mk("sym", mk("obj", "p%d" % i))] = (ZERO, sub(scale(n, bs) if bs > 1 else n, size))
            if bs > 1: F.ranges[mk("call", "idiv", mk("sym", mk("obj", "p%d" % i)), num(bs))] = (ZERO, sub(n, ONE))
        if bs > 1: F.known[mk("obj", "p%d" % k)] = Arr(num(bs * bs))


def orders(F, I, f, ns):
    """permutations: entries from 0 to their length - 1, the length of what is reordered"""
    T_ = mk("obj", "T")
    n = ns[0] if len(ns) == 1 else mk("sym", mk("obj", "p2")) if f["n"] == "setOrdering" else None
    for q in ("rp", "cp", "irp", "icp"):
        b = mk("region", mk("fld", T_, q))
        m = n if n is not None else mk("sym", mk("fld", b, "$size"))
        F.roles[m] = ("n", T_)
        if f["n"] != "setOrdering": F.known[b] = Arr(m, lambda x: ZERO, lambda x, m=m: sub(m, ONE))
    if f["n"] == "setOrdering":
        for q in ("rord", "cord"): F.known[mk("obj", "v_" + q)] = Arr(n, lambda x: ZERO, lambda x: sub(n, ONE))
        F.roles[n] = ("n", T_)


def accesses(c, name, I, effs, F, bs, lost=None):
    P = Prover(F)
    P.sub_extent = (bs, bs)
    seen = set()
    for e in effs:
        if e.kind not in ("read", "store") or not isinstance(e.off, T): continue
        if e.off.op == "ij": continue             # element of a local fixed-size block
        if e.fn and e.fn["n"] == "computeLevels" and F.of(e.base) is not None and F.of(e.base).size is not None and F.of(e.base).size.op == "opq": continue   # grows there: P20
        a = F.of(e.base)
        if a is None or a.size is None: continue
        gs = e.guards() + [g for g, _ in e.live]
        k = (e.base, e.off, e.width, tuple((L.T, L.n) for L in e.loops()), tuple(gs), e.where())
        if k in seen: continue
        seen.add(k)
        r = P.inside(e.off, a.size, e.loops(), gs, num(e.width or 1))
        inst = "%s: %s of %s" % (name, e.kind, short(e.base))
        if r == "ok": c.ok(ACC, inst, e.where())
        elif r[0] == "bad": c.bad(ACC, inst, e.where(), r[1])
        elif e.fn and (e.fn["n"] in COUNTED or "ColumnAdjacency" in e.fn["q"]) and counted(e.off, F):      # filled as counted: P18, P20
            rest = remainder(e.off, F) if e.fn["n"] != "compute_ILU_positions_CSR_CSR" else None
            if rest is None: continue
            r = P.inside(rest, a.size, e.loops(), [], num(e.width or 1))
            if r != "ok" and r[0] == "bad": c.bad(ACC, inst, e.where(), r[1])
        elif lost is not None: lost.append("%s %s: %s" % (e.where(), short(e.base), r[1]))
        else: c.und(ACC, inst, e.where(), r[1])


def lengths(c, name, I, effs, F, lost=None):
    """the bounds assertions of array views"""
    P = Prover(F)
    P.sub_extent = (F.bs, F.bs)
    seen = set()
    for e in effs:
        if e.kind != "assert" or e.val is None or e.val.op != "lt0" or e.fn is None or not e.fn["q"].endswith("::operator[]"): continue
        ls = {x: x.a[0].a[0] for x in walk(e.val) if x.op == "sym" and isinstance(x.a[0], T) and x.a[0].op == "fld" and x.a[0].a[1] == "len"}
        m = {}
        for x, o in ls.items():
            if o.op != "fld" or o.a[1] not in FIELDS: continue
            a = F.of(mk("deref", mk("fld", o, "data")))
            if a is not None and a.size is not None: m[x] = a.size
        p = neg(subst(e.val.a[0], m))
        gs = e.guards() + [g for g, _ in e.live]
        at = "%s (called at line %s)" % (e.where(), e.line)
        k = (p, tuple((L.T, L.n) for L in e.loops()), tuple(gs), e.stack[-2:])
        if k in seen: continue
        seen.add(k)
        r = P.inside(ZERO, p, e.loops(), gs)
        inst = "%s: view length in %s" % (name, e.stack[-2].split("::")[-1].split("<")[0] if len(e.stack) > 1 else "?")
        if r == "ok": c.ok(LEN, inst, e.where())
        elif r[0] == "bad": c.bad(LEN, inst, e.where(), "the bounds assertion %s fails: %s" % (show(e.val), r[1]))
        elif not m and ls: continue
        elif lost is not None: lost.append("%s view length: %s" % (at, r[1]))
        else: c.und(LEN, inst, e.where(), "%s: %s" % (show(e.val)[:100], r[1]))


def remainder(off, F):
    """the greatest position reached when the counted positions end at the number of stored entries"""
    l = lin(off)
    if l is None: return None
    cs = {k for x, k in l[1].items() if counted(x, F)}
    N = [x for x, r in F.roles.items() if r[0] == "N" and x.op == "load"]
    if len(cs) != 1 or len(N) != 1: return None
    g = cs.pop()
    rest = num(l[0])
    for x, k in l[1].items():
        if k != g: rest = add(rest, scale(x, k))
    return add(rest, scale(sub(N[0], ONE), g))


def counted(off, F):
    """a running position (a number of hits so far, or a sum of list lengths)"""
    return any(x.op == "opq" and "acc" in str(x.a[0]) for x in walk(off)) or any(x.op == "sum" for x in walk(off)) or any(x.op == "load" and (F.of(x.a[0]) is None or F.of(x.a[0]).hi is None) for x in walk(off))


def short(b):
    s = show(b)
    return s if len(s) < 60 else s[:57] + "..."


def vec(n, bs): return Arr(scale(n, bs))


def ilu_cfg(c, p, prec, bs, stor):
    for kw in (dict(scale=True, compute_precinfo=True, apply_inittype=1), dict(scale=False, compute_precinfo=False, fact_inittype=2, apply_inittype=0)):
        u = Ilu(p, prec, bs, stor, **kw)
        if u.i.obj is None: c.und(ACC, "%s/%d" % (prec, bs), "src/solverfactory.cpp", "not made"); return
        effs = [e for r in u.runs for e in r] + u.i.call("apply", R, Z)
        run(c, u.i, u.m, effs, bs, u)
        c.used(u.i.I)


def cfg(c, p, prec, bs, stor):
    for init in (1, 2):
        i = Inst(p, prec, bs, stor, apply_inittype=init)
        if i.obj is None: c.und(ACC, "%s/%d" % (prec, bs), "src/solverfactory.cpp", "not made"); return
        effs = i.call("compute") + i.call("apply", R, Z)
        if p.method(i.cls, "apply_relax"): effs += i.call("apply_relax", R, Z)
        run(c, i, Mx(bs), effs, bs)
        c.used(i.I)


def run(c, i, m, effs, bs, u=None):
    F = Facts(i.I, list(i.created) + list(effs), bs, {R: vec(m.n, bs), Z: vec(m.n, bs)})
    n, N = F.matrix(MAT, matarr)
    K = F.known
    if u is not None and u.PP is not None:
        total = [e.val for e in effs if e.kind == "alloc" and e.base in (u.LP, u.UP)]
        tots = {x for t in total for x in (lin(t) or (0, {}))[1] if x.op == "opq"}
        for t in tots: F.roles.pop(t, None)
        if len(tots) == 1:
            tot = tots.pop()               # the sum of the list lengths
            size = F.of(u.PP).size if F.of(u.PP) is not None else None
            K[u.PP] = Arr(size, lambda x: (ZERO, True), lambda x: (tot, True), mono=True)
            for b in (u.LP, u.UP): K[b] = Arr(F.own[b].size if b in F.own else None, lambda x: (ZERO, False), lambda x: (sub(N, ONE), False))
        for e in effs:
            if e.kind != "alloc" or e.base not in (u.LP, u.UP) or F.own.get(e.base) is None: continue
            l = lin(F.own[e.base].size) if F.own[e.base].size is not None else None
            if l is None or not all(F.role(x) for x in l[1]): continue
            for k in range(1, 13):             # dense matrix of k rows
                got = l[0] + sum(q * (k if F.role(x)[0] == "n" else k * k) for x, q in l[1].items())
                if got < sum(min(a, b) for a in range(k) for b in range(k)):
                    c.bad(ACC, "%s: length of the lists of positions" % i.name, e.where(), "room for %s positions only: a dense matrix of %d rows has more" % (show(F.own[e.base].size), k)); break
    for e in effs:
        if e.kind == "push" and e.fn and e.fn["n"] == "computeLevels" and e.base not in K and not e.loops():
            size = i.st.cells.get(mk("fld", e.base, "$size"))
            if size is not None and size.op == "opq": F.roles[size] = ("N", size)
            K[e.base] = Arr(size, lambda x: (ZERO, True), lambda x: (n, True), mono=True)
    columns(i, F, n, N)
    accesses(c, i.name, i.I, effs, F, bs)
    lengths(c, i.name, i.I, effs, F)


def columns(i, F, n, N):
    """the column-storage copy made by a preconditioner (its contents: P18)"""
    for o, v in list(i.st.cells.items()):
        if o.op == "fld" and o.a[1] == "bcolptr" and v.op == "ptr":
            X = o.a[0]
            g = {q: i.st.cells.get(mk("fld", X, q)) for q in ("bcolptr", "browind", "diagind", "vals")}
            g = {q: w.a[0] for q, w in g.items() if w is not None and w.op == "ptr" and w.a[1] is ZERO}
            if len(g) != 4: continue
            bp = g["bcolptr"]
            size = lambda b: F.of(b).size if F.of(b) is not None else None
            K = F.known
            K[bp] = Arr(size(bp), lambda x: (ZERO, True), lambda x: (N, True), mono=True)
            K[g["browind"]] = Arr(size(g["browind"]), lambda x: ZERO, lambda x: sub(n, ONE))
            K[g["diagind"]] = Arr(size(g["diagind"]), lambda x: load(bp, x), lambda x: sub(load(bp, add(x, ONE)), ONE))


if __name__ == "__main__":
    main(check, "P16", "Every array access of every method the factory makes, and of the views, as a linear form over loop counters and entries of the index arrays, eliminated innermost first with the facts of a well-formed matrix; compared with the size the array was given or allocated.",
         ["position lists of the factorisation hold positions of stored entries and end at their own length (P05, P20)", "the level offsets ascend from 0 to the number of rows (P20)"])
