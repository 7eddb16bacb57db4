"""Malformed and unsupported matrix files are refused with an error, whatever they hold."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from own import *
from rel import truth, holds
from model import *
from interp import If, Loop

ENDS = ("abort", "exit", "terminate", "_Exit", "__assert_fail")
WORDS = [["%%MatrixMarket"], ["matrix"], ["coordinate", "array"], ["real", "complex", "integer", "pattern"], ["general", "symmetric", "skew-symmetric", "hermitian"]]


def check(c, p):
    c.par(p, [(reader, "readMatrixMarket", "coordinate", 3), (reader, "readDenseMatrixMarket", "array", 2), (kinds,), (orders,)])
    c.need("header", 4)
    c.need("entries", 4)


def at(f): return "%s:%s" % (f["file"], f["line"])


class Read:
    """a reader, followed with everything it calls"""

    def __init__(self, p, f):
        I = self.I = Interp(p, budget=900000)
        I.streams = True
        st = self.st = State()
        I.models["std::stoi"] = I.models["std::stol"] = I.models["std::stoll"] = lambda I, st, vs, line: mk("call", "number", vs[0])
        self.ret = I.run(f, this=mk("obj", "coo") if f.get("cls") else None, cls=f.get("cls"), st=st)
        self.eff = I.eff
        for e in I.eff:
            if e.kind == "throw" and (e.name or "").split("::")[-1] in ENDS: e.kind = "end"
        self.stops = [e for e in I.eff if e.kind in ("throw", "end")]
        # the words of the header: the vector compared with literals
        vs = {x for e in I.eff for g in conds(e) for y in walk(g) if y.op == "eq0" or y.op == "streq" for x in walk(y) if x.op == "load"}
        self.tokens = None
        cnt = {}
        for e in self.stops:
            for g in conds(e):
                for y in words(g):
                    cnt[y.a[0]] = cnt.get(y.a[0], 0) + 1
        if cnt: self.tokens = max(cnt, key=lambda k: cnt[k])

    def guards(self, e): return [subst(q, {}) for q in conds(e)]

    def open(self):
        """the conditions that a stream is in a failed state before anything was read"""
        return {x for e in self.eff for g in conds(e) for x in walk(g) if x.op in ("sym", "fld") and "$fail" in show(x)}


def words(g):
    """places of a vector that are compared with a literal"""
    out = set()
    for y in walk(g):
        kids = [x for x in y.a if isinstance(x, T)]
        if any(x.op == "str" for x in kids):
            for x in kids:
                if x.op == "load" and numval(x.a[1]) is not None: out.add(x)
    return out


def verdict(r, m, upto=None, stops=None):
    """'refused', 'accepted', 'ends the process' or None for an assignment"""
    left = False
    for e in stops if stops is not None else r.stops:
        if upto is not None and e.seq > upto: continue
        h = holds([q for q in conds(e)], m)
        if h: return "refused" if e.kind == "throw" else "ends the process"
        if h is None: left = True
    return None if left else "accepted"


def reader(c, p, name, storage, need):
    fs = [f for f in p.funcs.values() if f["n"] == name and "body" in f]
    if not fs: raise AnalysisBroken("no function %s" % name)
    for f in fs:
        r = Read(p, f)
        c.used(r.I)
        w = at(f)
        inst = name + (" of " + f["ret"][:30] if storage == "array" else "")
        ex = [e for e in r.eff if e.kind == "extract"]
        if not ex: c.und("entries", inst + ": extraction", w, "no extraction from the stream was seen"); continue
        first = min(e.seq for e in ex)
        fails = [mk("nz", x) if x.op != "nz" else x for x in r.open()]
        head = header(c, r, inst, storage, w, first)
        opened(c, r, inst, w, first)
        sizes = dims(c, r, inst, need, w, first, head)
        entries(c, r, inst, w, ex)
        if storage == "coordinate": ranges(c, r, inst, w, ex, sizes)
        else: dense(c, r, inst, w, ex, sizes)
        endless(c, r, inst)
        for e in r.eff:
            if e.kind == "catch":
                hs = [s for s in r.stops if any(isinstance(x, If) and x.c is e.val for x in s.ctx)]
                good = any(s.kind == "throw" and holds([x.c for x in s.ctx if isinstance(x, If)], {e.val: TRUE}) for s in hs)
                c.req(good, "errors", "%s: a caught %s is passed on" % (inst, e.name), e.where(), "the handler goes on as if nothing had happened" if not hs else "ends the process")
            if e.kind == "call" and (e.name or "").split("::")[-1] in ("atoi", "atol", "atof", "strtol", "strtod", "sscanf", "fscanf", "scanf"):
                c.bad("errors", "%s: numbers are checked" % inst, e.where(), "%s does not tell numbers from other text" % e.name)


def endless(c, r, inst):
    """a loop that goes on until it has read something ends when nothing is left to read"""
    done = set()
    for e in r.eff:
        if e.kind not in ("line", "extract"): continue
        for k, L in enumerate(loops(e)):
            if L.known or L.uid in done: continue
            done.add(L.uid)
            i = "%s: the loop that reads at line %s ends with the file" % (inst, e.line)
            inside = [x for x in r.eff if L in loops(x) and x.seq >= e.seq]
            m = {e.val: TRUE}
            # the condition is evaluated afresh every time round
            own_ = {x: TRUE for x in walk(L.cond) if x.op == "nz" and "opq(rf" in show(x)} if isinstance(L.cond, T) else {}
            out = any(x.kind in ("throw", "ret") and loops(x) == loops(e)[:k + 1] and holds([q.c for q in x.ctx if isinstance(q, If) and q not in e.ctx], m) for x in inside)
            out = out or isinstance(L.cond, T) and holds([L.cond], own_) is False
            aware = bool(own_) or any(mentions(q, e.val) for x in inside for q in conds(x))
            if out: c.ok("errors", i, e.where())
            elif aware: c.und("errors", i, e.where(), "not decided")
            else: c.bad("errors", i, e.where(), "the result of reading is never looked at in the loop: it never ends on a file that is cut short")


def base(r):
    """assignment under which the file can be opened and nothing else fails"""
    m = {}
    for e in r.eff:
        for g in conds(e):
            for x in walk(g):
                if x.op == "nz" and ("$fail" in show(x)): m[x] = FALSE
                if x.op in ("sym",) and show(x).endswith("$fail"): m[mk("nz", x)] = FALSE; m[x] = ZERO
        if e.kind in ("extract", "line"): m[e.val] = FALSE
        if e.kind == "catch": m[e.val] = FALSE
    return m


def sizeof(r, V):
    x = mk("fld", V, "$size")
    return next((e.val for e in r.eff if e.kind == "alloc" and e.base is V), None)


def numbers(r):
    """the numbers parsed from text, by the text they come from"""
    out = {}
    for e in r.eff:
        for t in [e.val, e.off] + list(e.args or []) + conds(e):
            if isinstance(t, T):
                for x in walk(t):
                    if x.op == "call" and x.a[0] == "number": out[x] = x.a[1]
    return out


def header(c, r, inst, storage, w, first):
    if r.tokens is None: c.und("header", inst, w, "the words of the header were not found"); return None
    V = r.tokens
    n = sizeof(r, V)
    b = base(r)
    for e in r.eff:
        if e.kind == "alloc" and isinstance(e.val, T) and e.val.op == "opq": b[e.val] = num(3)
    for x in numbers(r): b[x] = ONE
    if n is not None: b[n] = num(5)
    wordat = lambda k: load(V, num(k))

    def outcome(ws, size=5):
        m = dict(b)
        for k, x in enumerate(ws): m[wordat(k)] = string(x)
        if n is not None: m[n] = num(size)
        return m

    cases = [list(x) for x in itertools.product(*WORDS)]
    for k in range(5): cases += [[("bogus" if i == k else x) for i, x in enumerate(ws)] for ws in itertools.product(*[q[:1] for q in WORDS])] + [["%%MatrixMarket", "matrix", storage, "real", "general"][:k] + ["bogus"] + ["%%MatrixMarket", "matrix", storage, "real", "general"][k + 1:]]
    before = [e for e in r.stops if e.seq < first and not loops(e)]
    seen = set()
    for ws in cases:
        if tuple(ws) in seen: continue
        seen.add(tuple(ws))
        want = ws[2] == storage and ws[3] in ("real", "integer") and ws[4] == "general" and ws[0] == "%%MatrixMarket" and ws[1] == "matrix"
        m = outcome(ws)
        # what the words decide; the numbers of the size line are left open
        stops = [e for e in before if any(mentions(q, wordat(k)) for q in conds(e) for k in range(5))]
        v = verdict(r, m, stops=stops)
        i = "%s: %s" % (inst, " ".join(ws[1:] if ws[0] in WORDS[0] else ws))
        if want:
            # later steps depend on the kind of storage only
            dead = [e for e in stops if holds(own(e, r, wordat), m)]
            c.req(not dead, "header", i + ": accepted", w, "refused at line %s" % (dead[0].line if dead else ""))
        else:
            dead = [e for e in stops if holds(own(e, r, wordat), m)]
            t = [e for e in dead if e.kind == "throw"]
            if not dead and any(holds(own(e, r, wordat), m) is None for e in stops):
                unset = sorted({show(x) for e in stops for q in own(e, r, wordat) for x in walk(subst(q, m)) if x.op == "uninit"})
                if unset: c.bad("header", i + ": refused", w, "%s is used although the words do not set it" % unset[0])
                else: c.und("header", i + ": refused", w, "not decided")
            else: c.req(bool(t) and dead[0].kind == "throw", "header", i + ": refused", w, "accepted" if not dead else "ends the process")
    if n is not None:
        for k in (0, 1, 2, 3, 4):
            m = {n: num(k)}
            lens = [e for e in before if any(mentions(q, n) for q in conds(e))]
            dead = [e for e in lens if holds([x.c for x in e.ctx if isinstance(x, If)], m)]
            early = [e for e in dead if all(not mentions(q, wordat(j)) for q in [x.c for x in e.ctx if isinstance(x, If)] for j in range(5))]
            c.req(any(e.kind == "throw" for e in early), "header", "%s: header of %d words refused" % (inst, k), w, "accepted")
    return V


def own(e, r, wordat):
    """the conditions an effect is reached under, other than that nothing was refused before"""
    return [x.c for x in e.ctx if isinstance(x, If)]


def opened(c, r, inst, w, first):
    fs = [x for e in r.stops for q in conds(e) for x in walk(q) if x.op == "nz" and isinstance(x.a[0], T) and show(x.a[0]).endswith("$fail")]
    fs += [x for e in r.stops for q in conds(e) for x in walk(q) if x.op == "sym" and show(x).endswith("$fail")]
    good = None
    for e in r.stops:
        g = [x.c for x in e.ctx if isinstance(x, If)]
        if loops(e) or e.seq > first: continue
        m = {}
        for q in g:
            for x in walk(q):
                if "$fail" in show(x) and x.op in ("nz", "sym"): m[x] = TRUE if x.op == "nz" else ONE
        if m and len(g) == 1 and holds(g, m) and all(q is TRUE or all(mentions(q, y) for y in ()) for q, k in e.live if k != "throw"):
            if good is None or e.seq < good.seq: good = e
    reads = [e for e in r.eff if e.kind == "line"]
    c.req(good is not None and good.kind == "throw" and all(good.seq < e.seq for e in reads), "header", inst + ": a missing file is refused", w, "the file is read whether it was opened or not" if good is None else "ends the process or is noticed too late")


def dims(c, r, inst, need, w, first, V0):
    ns = numbers(r)
    by = {}
    for x, t in ns.items():
        if t.op == "load": by.setdefault(t.a[0], []).append(x)
    if not by: c.und("sizes", inst, w, "the numbers of the size line were not found"); return None
    V = next(iter(by))
    n = sizeof(r, V)
    if n is None: c.und("sizes", inst, w, "the words of the size line were not found"); return None
    b = base(r)
    ws = ["%%MatrixMarket", "matrix", "coordinate" if need == 3 else "array", "real", "general"]
    if V0 is not None:
        for k, x in enumerate(ws): b[load(V0, num(k))] = string(x)
        if sizeof(r, V0) is not None: b[sizeof(r, V0)] = num(5)
    lens = [e for e in r.stops if any(mentions(x.c, n) for x in e.ctx if isinstance(x, If)) and e.seq < first]
    for k in range(need + 2):
        m = dict(b); m[n] = num(k)
        dead = [e for e in lens if holds([q for q in conds(e) if not any(y in ns for y in walk(q))], m)]
        i = "%s: %d numbers in the size line" % (inst, k)
        if k < need: c.req(any(e.kind == "throw" for e in dead), "sizes", i + " refused", w, "accepted" if not dead else "ends the process")
        else: c.req(not dead, "sizes", i + " accepted", w, "refused")
    # a size that is no size
    st = [e for e in r.eff if e.kind == "store" and isinstance(e.val, T) and e.val in ns]
    if len(st) != 1 or len(loops(st[0])) != 1: c.und("sizes", inst + ": numbers", w, "not followed"); return None
    s = st[0]
    L = loops(s)[0]
    x = s.val
    c.req(x.a[1] is load(V, L.T) and s.off is L.T and L.n is n, "sizes", inst + ": every number is kept in its place", s.where(), "[%s] = %s for %s below %s" % (show(s.off), show(x), show(L.T), show(L.n)))
    stops = [e for e in r.stops if any(mentions(q.c, x) for q in e.ctx if isinstance(q, If)) or e.seq < first and any(mentions(q.c, load(s.base, num(k))) for q in e.ctx if isinstance(q, If) for k in range(3))]
    neg_ = [e for e in stops if e.kind == "throw" and loops(e)[:1] == (L,) and holds([q.c for q in e.ctx if isinstance(q, If) if mentions(q.c, x)], {x: num(-1)})]
    late = []
    for k in range(need):
        y = load(s.base, num(k))
        if any(e.kind == "throw" and holds([q.c for q in e.ctx if isinstance(q, If)], {y: num(-1)}) for e in stops): late.append(k)
    c.req(bool(neg_) or len(late) == need, "sizes", inst + ": negative sizes are refused", s.where(), "accepted")
    for e in neg_:
        for v in (0, 1, 5): c.req(holds([q.c for q in e.ctx if isinstance(q, If) if mentions(q.c, x)], {x: num(v)}) is False, "sizes", inst + ": size %d accepted" % v, e.where(), "refused")
    return s.base


def entries(c, r, inst, w, ex):
    """no value is used and no reader returns when an extraction has failed"""
    for e in ex:
        ls = loops(e)
        outs = [x.val for x in r.eff if x.kind in ("set", "store") and x.line == e.line and isinstance(x.val, T) and x.val.op == "out" and x.seq > e.seq][:1]
        m = base(r)
        m[e.val] = TRUE
        found = None
        for s in r.stops:
            if s.seq < e.seq: continue
            sl = loops(s)
            if sl and sl != ls[:len(sl)]: continue
            g = [x.c for x in s.ctx if isinstance(x, If)]
            mine = [x.c for x in e.ctx if isinstance(x, If)]
            g = [q for q in g if q not in mine]
            mm = dict(m)
            if len(sl) < len(ls):
                for q in g:
                    for x in walk(q):
                        if x.op == "nz" and "$fail" in show(x) and "out" in show(x): mm[x] = TRUE
            mm = {k: v for k, v in mm.items() if k.op != "nz" or v is TRUE}
            if holds(g, mm): found = s; break
        i = "%s: %s" % (inst, "entry read into %s" % show(e.args[0].a[0] if e.args[0].op == "ptr" else e.args[0])[-40:])
        if found is None: c.bad("entries", i, e.where(), "a missing or invalid entry goes unnoticed"); continue
        c.req(found.kind == "throw", "entries", i + ": refused when missing", e.where(), "ends the process")
        used = [x for x in r.eff if x.kind in ("set", "store") and e.seq < x.seq < found.seq and isinstance(x.val, T) and any(y.op == "out" for y in walk(x.val)) and x.val.op != "out"]
        idx = [x for x in r.eff if e.seq < x.seq < found.seq and isinstance(x.off, T) and any(y.op == "out" for y in walk(x.off))]
        c.req(not idx, "entries", i + ": not used before it is checked", e.where(), "used as a position at line %s" % (idx[0].line if idx else ""))


def target(e):
    t = e.args[0]
    return t.a[0] if t.op in ("ptr", "lv") else t


def ranges(c, r, inst, w, ex, S):
    ls = [loops(e) for e in ex]
    if len(ex) != 3 or any(len(l) != 1 or l != ls[0] for l in ls): c.und("entries", inst + ": row, column and value", w, "%d extractions" % len(ex)); return
    L = ls[0][0]
    outs = []
    for e in ex:
        o = [x for x in r.eff if x.seq > e.seq and x.kind in ("set", "store") and isinstance(x.val, T) and x.val.op == "out"]
        outs.append(o[0].val if o else None)
    if None in outs: c.und("entries", inst + ": row, column and value", w, "not followed"); return
    x, y, v = outs
    if S is not None:
        c.req(L.n is load(S, num(2)) and L.cond in (None, TRUE), "entries", inst + ": as many as declared", ex[0].where(), "reads %s entries" % show(L.n))
        N, M = load(S, ZERO), load(S, ONE)
        sets = {}
        for e in r.eff:
            if e.kind == "set" and not loops(e) and e.base.op == "fld" and e.base.a[0] is mk("obj", "coo"): sets[e.base.a[1]] = e
        for n, k in (("nrows", 0), ("ncols", 1), ("nnz", 2)):
            e = sets.get(n)
            c.req(e is not None and e.val is load(S, num(k)), "sizes", "%s: %s" % (inst, n), w, "never set" if e is None else "is %s" % show(e.val))
    else: N = M = None
    # where they go
    last = {}
    for e in r.eff:
        if e.kind in ("set", "store") and loops(e) == (L,) and isinstance(e.base, T) and e.base.op == "fld" and e.base.a[1] in ("rowind", "colind", "value"): last[e.base.a[1]] = e
    for n, want in (("rowind", sub(x, ONE)), ("colind", sub(y, ONE)), ("value", v)):
        e = last.get(n)
        if e is None: c.und("entries", "%s: %s" % (inst, n), w, "not followed"); continue
        el = e.base.a[0]
        c.req(e.val is want and el.op == "elem" and el.a[1] is L.T, "entries", "%s: %s" % (inst, n), e.where(), "%s = %s" % (show(e.base), show(e.val)))
    if N is None: return
    stops = [e for e in r.stops if loops(e) == (L,)]
    b = base(r)
    for vx, vy, vn, vm in itertools.product(range(-1, 5), range(-1, 5), (1, 3), (2, 3)):
        m = dict(b); m.update({x: num(vx), y: num(vy), N: num(vn), M: num(vm)})
        res = [(e, holds([q.c for q in e.ctx if isinstance(q, If)], m)) for e in stops]
        out = any(h for e, h in res if e.kind == "throw")
        want = not (1 <= vx <= vn and 1 <= vy <= vm)
        if not out and any(h is None for e, h in res): c.und("entries", inst + ": entries outside the matrix", w, "not decided"); return
        if out != want: c.bad("entries", inst + ": entries outside the matrix", ex[0].where(), "entry (%d,%d) of a %d by %d matrix is %s" % (vx, vy, vn, vm, "refused" if out else "accepted")); return
    c.ok("entries", inst + ": entries outside the matrix", ex[0].where())
    # before they are used
    t = [e for e in stops if e.kind == "throw" and any(mentions(q.c, x) or mentions(q.c, y) for q in e.ctx if isinstance(q, If))]
    lastt = max(e.seq for e in t) if t else 0
    bad = [e for e in r.eff if isinstance(e.off, T) and (mentions(e.off, x) or mentions(e.off, y)) and e.seq < lastt]
    c.req(not bad, "entries", inst + ": checked before used", w, "used as a position at line %s" % (bad[0].line if bad else ""))


def dense(c, r, inst, w, ex, S):
    if S is None: return
    for e in ex:
        ls = loops(e)
        if len(ls) != 1: c.und("entries", inst + ": every value", e.where(), "%d loops" % len(ls)); continue
        t = target(e)
        a = e.args[0]
        off = a.a[1] if a.op == "ptr" and a.a[0].op != "cell" else None
        if a.op == "ptr" and a.a[0].op in ("cell",) and a.a[0].a[0].op == "elem": off = a.a[0].a[0].a[1]
        if a.op == "ptr" and a.a[0].op == "elem": off = a.a[0].a[1]
        c.req(ls[0].n is mul(load(S, ZERO), load(S, ONE)) and (off is None or off is ls[0].T), "entries", inst + ": every value in its place", e.where(), "%s for %s below %s" % (show(a), show(ls[0].T), show(ls[0].n)))


def kinds(c, p):
    """every documented word of a header is told apart"""
    fs = [f for f in p.funcs.values() if f["n"] == "getMMDescription" and "body" in f]
    for f in fs:
        r = Read(p, f)
        c.used(r.I)
        w = at(f)
        V = r.tokens
        if V is None or r.ret is None or r.ret.op != "rec": c.und("header", "kinds", w, "not followed"); continue
        names = {}
        for rec in p.funcs.values():
            if rec["file"].endswith("coomatrix.cpp"): enums(rec.get("body"), names)
        n = sizeof(r, V)
        for field, k, en in (("storagetype", 2, "MMStorageType"), ("scalartype", 3, "MMScalarType"), ("matrixtype", 4, "MMMatrixType")):
            for word in WORDS[k]:
                m = {load(V, num(j)): string(WORDS[j][0]) for j in range(5)}
                m[load(V, num(k))] = string(word)
                if n is not None: m[n] = num(5)
                dead = [e for e in r.stops if holds(conds(e), m)]
                v = r.st.cells.get(mk("fld", r.ret.a[0], field))
                v = subst(v, m) if v is not None else None
                want = names.get(("blasted::" + en, word.replace("-", "").upper()))
                if dead: c.bad("header", "kind %s" % word, w, "refused at line %s" % dead[0].line); continue
                if v is None or want is None or numval(v) is None: c.und("header", "kind %s" % word, w, "value not followed"); continue
                c.req(numval(v) == want, "header", "kind %s" % word, w, "recorded as %s number %s" % (en, show(v)))


def enums(x, out):
    if isinstance(x, dict):
        if x.get("k") == "ref" and x.get("dk") == "enum": out[x["en"], x["n"]] = x["cv"]
        for v in x.values(): enums(v, out)
    elif isinstance(x, list):
        for v in x: enums(v, out)


def orders(c, p):
    """an unknown storage order is refused"""
    for f in p.funcs.values():
        if f["n"] != "getSRMatrixFromCOO" or "body" not in f: continue
        I, st = Interp(p, budget=900000), State()
        I.noinline = {g["q"] for g in p.funcs.values() if g["n"] in ("convertToCSR", "convertToBSR")}
        I.run(f, args={1: ("v", mk("sym", "order"))}, st=st)
        c.used(I)
        cs = [e for e in I.eff if e.kind == "call" and "convertTo" in (e.name or "")]
        key = next((e.name for e in cs), "")
        scalar = all("convertToCSR" in e.name for e in cs)
        if scalar: continue
        o = mk("sym", "order")
        inst = "storage order, %s" % f["key"].split("|")[0].strip().split("::")[-1]
        for word, ok in (("rowmajor", True), ("colmajor", True), ("bogus", False), ("", False)):
            m = {o: string(word)}
            t = [e for e in I.eff if e.kind == "throw" and (e.name or "").split("::")[-1] not in ENDS and holds(conds(e), m)]
            n = [e for e in cs if holds(conds(e), m)]
            c.req(bool(t) != ok and (len(n) == 1) == ok, "orders", "%s: '%s'" % (inst, word), at(f), "refused" if t else "%d conversions" % len(n))


if __name__ == "__main__":
    main(check, "P19", "The readers are followed with everything they call. Every combination of header words, including unknown ones and short headers, is put into the path conditions of the errors raised; so are short size lines, negative sizes and "
         "entries on, inside and outside the declared dimensions. The failure state of the input stream is followed through every extraction: an error must be raised on failure, before the value is used as a position.",
         ["std::stoi raises its documented exceptions", "the words of a line are split by the library's stream iterators"])
