"""Flow-sensitive, interprocedural value-flow analysis (abstract interpretation over the terms of terms.py).

Every statement is abstractly evaluated; both arms of a branch are evaluated and joined (no path enumeration),
each loop is summarised once (induction variables, reductions, loop-carried values), every call to a function
of the repository is inlined.  The result is the list of *effects* of an entry function on memory
(stores, reads, allocations, frees, calls, throws), each with the loops, OpenMP regions and conditions around it.
No input values, no solver, no execution."""
import re
from terms import *
import terms as TM

MAXDEPTH = 24


class Loop:
    __slots__ = ("uid", "T", "n", "dir", "line", "fn", "brk", "known", "lo", "cond", "kind", "iv")

    def __repr__(self):
        return "for %s<%s%s" % (self.T, self.n, "" if self.dir > 0 else " desc" if self.dir < 0 else " ?")


class Omp:
    __slots__ = ("d", "cl", "line", "fn", "uid")

    def __repr__(self):
        return "omp %s" % self.d

    def has(self, c):
        return any(x["c"] == c for x in self.cl)

    def get(self, c):
        return [x for x in self.cl if x["c"] == c]


class If:
    __slots__ = ("c", "line")

    def __repr__(self):
        return "if %s" % self.c


class Eff:
    __slots__ = ("kind", "base", "off", "val", "ctx", "live", "fn", "line", "seq", "stack", "name", "args", "extra", "width", "scope")

    def loops(self): return [f for f in self.ctx if isinstance(f, Loop)]
    def guards(self): return [f.c for f in self.ctx if isinstance(f, If)]
    def omps(self): return [f for f in self.ctx if isinstance(f, Omp)]

    def where(self):
        return "%s:%s" % (self.fn["file"].split("/repo/")[-1] if self.fn else "?", self.line)

    def __repr__(self):
        s = {"store": "%s[%s] := %s" % (self.base, self.off, self.val), "set": "%s := %s" % (self.base, self.val),
             "read": "read %s[%s]" % (self.base, self.off), "alloc": "alloc %s = %s (%s)" % (self.base, self.val, self.name),
             "free": "free %s (%s)" % (self.val, self.name), "call": "call %s(%s)" % (self.name, ", ".join(map(repr, self.args or []))),
             "throw": "throw %s" % self.name}.get(self.kind, self.kind)
        return "%s  {%s}" % (s, "; ".join(map(repr, self.ctx)))


def unsearched(I):
    """effects in which storing the result of a search loop (a variable set under conditions in the loop, stored after it) is
    written as storing the initial value first and each candidate as it is found: the last one wins either way"""
    out = []
    for s in I.eff:
        o = I.outs.get(s.val) if s.kind == "store" and isinstance(s.val, T) else None
        if o is None: out.append(s); continue
        m, uid, init = o
        sets = [e for e in I.eff if e.kind == "set" and e.base is m and any(L.uid == uid for L in e.loops())]
        outer = s.loops()
        if not sets or not outer or init.op in ("uninit", "opq") or any(any(x.op == "opq" for x in walk(e.val)) or e.loops()[:len(outer)] != outer or m in walk(e.val) or I.outs.get(e.val) for e in sets): out.append(s); continue
        def put(e, val, q):
            x = Eff()
            for k in Eff.__slots__:
                if hasattr(e, k): setattr(x, k, getattr(e, k))
            x.kind, x.base, x.off, x.val, x.seq, x.name, x.args, x.extra, x.width = "store", s.base, s.off, val, q, s.name, s.args, s.extra, getattr(s, "width", None)
            return x
        out.append(put(s, init, s.seq - 0.5))
        out.extend(put(e, e.val, s.seq) for e in sets)
    return out


def jumps(x, loop=False):
    """break or continue statements that leave x itself"""
    if isinstance(x, list): return any(jumps(y, loop) for y in x)
    if not isinstance(x, dict): return False
    k = x.get("k")
    if k in ("break", "continue"): return not loop or loop == "sw" and k == "continue"
    if k == "lambda": return False
    if k in ("for", "while", "do", "rangefor"): loop = True
    elif k == "switch" and not loop: loop = "sw"
    return any(jumps(y, loop) for y in x.values())


class State:
    __slots__ = ("cells", "writes", "live", "dead")

    def __init__(self):
        self.cells, self.writes, self.live, self.dead = {}, {}, [], None

    def copy(self):
        s = State()
        s.cells, s.writes, s.live, s.dead = dict(self.cells), dict(self.writes), list(self.live), self.dead
        return s


class Frame:
    __slots__ = ("f", "uid", "env", "rets", "depth", "this", "lnest", "autos", "lmark", "tmark")


OLD = mk("opq", "$before")
NUMTYPES = {"double", "float", "int", "long", "unsigned int", "unsigned long", "bool", "char", "const double", "const int"}
_LAY = re.compile(r"^(?:const )?Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+), (\d+)")


def eigdims(t):
    """(rows, cols) of a fixed-size Eigen matrix type, None otherwise"""
    m = re.match(r"^(?:const )?Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+),", t)
    if not m: return None
    r, c = int(m.group(1)), int(m.group(2))
    return (r, c)


_st = {}
_EB = re.compile(r"Eigen::(?:MatrixBase|DenseBase|EigenBase|PlainObjectBase|NoAlias|DenseCoeffsBase)<(Eigen::Matrix<[^<>]*>)(?:, [^<>]*(?:<[^<>]*>)?)?>")


def strip(t):
    """type without top-level const/reference; Eigen base classes stand for the matrix itself"""
    r = _st.get(t)
    if r is not None: return r
    t0 = t
    t = t.strip()
    while True:
        if t.endswith("&&"): t = t[:-2].strip()
        elif t.endswith("&"): t = t[:-1].strip()
        elif t.endswith(" __restrict"): t = t[:-11].strip()
        elif t.endswith("__restrict"): t = t[:-10].strip()
        elif t.endswith(" const"): t = t[:-6].strip()
        elif t.endswith("*const"): t = t[:-5].strip()
        elif t.startswith("const ") and not t.endswith("*"): t = t[6:].strip()
        else: break
    if "Eigen::" in t: t = _EB.sub(r"\1", t)
    _st[t0] = t
    return t


def pointee(t):
    t = strip(t)
    if t.endswith("*"): return strip(t[:-1])
    m = re.match(r"^(.*?)\s*\[\d*\]$", t)
    if m: return strip(m.group(1))
    m = re.match(r"^__gnu_cxx::__normal_iterator<(.*?) ?\*,", t)
    if m: return strip(m.group(1))
    return None


def stride(t):
    """scalars per element of type t"""
    if t is None: return 1
    d = eigdims(t)
    if d and d[0] > 0 and d[1] > 0: return d[0] * d[1]
    return 1


LIBVEC = ("std::vector<", "std::array<", "std::__cxx11::basic_string", "std::basic_string<", "std::valarray<")


def isvec(t):
    t = strip(t)
    return t.startswith(("std::vector<", "std::array<"))


PURE = {"sqrt", "fabs", "abs", "std::abs", "std::sqrt", "std::fabs", "std::log", "log", "std::log2", "log2", "std::ceil", "ceil", "std::pow", "pow",
        "std::floor", "floor", "exp", "std::exp", "std::max", "std::min", "std::isfinite", "isfinite"}
NORETURN = {"abort", "exit", "__assert_fail", "std::abort", "std::exit", "std::terminate", "_Exit", "__cxa_throw"}
IDENT = {"std::move", "std::forward"}


class Interp:
    def __init__(self, prog, noinline=(), preset=None, budget=400000):
        self.p = prog
        self.eff = []
        self.ctx = []
        self.rec = 1
        self.uid = 0
        self.stack = []
        self.mods = []
        self.decls = []
        self.noinline = set(noinline)
        self.dyn = {}          # object location id -> dynamic class
        self.preset = preset or {}
        self.carry = {}     # value a variable holds when an iteration starts -> (value before the loop, at the end of an iteration, loop)
        self.outs = {}      # value a variable holds after a loop -> (variable, loop, value before)
        self.lam = {}
        self.unknown = []      # constructs the engine does not model precisely
        self.inlined = {}      # function key -> times inlined
        self.steps, self.budget = 0, budget
        self.trys = 0
        self.unwinding = 0
        self._triv = {}
        self.tybase = {}
        self.sizes = {}
        self.lty = {}
        self.declw = {}
        self.ety = {}           # array -> element types it is accessed as
        self.streams = False # follow the failure state of input streams
        self.heads = {}      # value of a variable at the start of a loop iteration -> its value before the loop
        self.bound = {}       # symbols with a known range: 0 <= symbol < bound
        self.models = {}       # external or virtual function -> what it does (interp, state, arguments, line) -> value or None
        self.layout = {}       # array -> {(rows, cols, row-major): first access}

    # ---------------- utilities
    def fresh(self, hint="o"):
        self.uid += 1
        return mk("opq", "%s%d" % (hint, self.uid))

    def freshm(self, hint="m"):
        self.uid += 1
        return mk("mopq", "%s%d" % (hint, self.uid))

    def effect(self, st, kind, line, **kw):
        e = Eff()
        e.kind, e.line = kind, line
        if not self.rec: return e
        e.base = kw.get("base"); e.off = kw.get("off"); e.val = kw.get("val")
        e.width = kw.get("w", 1)
        e.name = kw.get("name"); e.args = kw.get("args"); e.extra = kw.get("extra")
        e.ctx = tuple(self.ctx); e.live = tuple(st.live)
        e.fn = self.stack[-1].f if self.stack else None
        e.stack = tuple(f.f["q"] for f in self.stack)
        e.scope = self.unwinding > 0
        e.seq = len(self.eff)
        self.eff.append(e)
        return e

    def note(self, what, line=None):
        f = self.stack[-1].f if self.stack else None
        self.unknown.append("%s (%s:%s)" % (what, f["file"] if f else "?", line))

    # ---------------- memory
    def deflt(self, loc, t):
        """initial value of a cell never written"""
        if loc in self.preset: return self.preset[loc]
        t0 = t or ""
        s = strip(t0)
        if t0.strip().endswith("&"): return loc_ref(loc)
        if s.endswith("*") or "__normal_iterator" in s:
            return mk("ptr", mk("deref", loc), ZERO)
        if s in self.p.records: return mk("rec", loc)
        if isvec(s): return mk("vec", mk("region", loc))
        d = eigdims(s)
        if d: return mk("mload", loc, ZERO)
        if "[" in s: return mk("ptr", mk("region", loc), ZERO)
        return mk("sym", loc)

    def rdcell(self, st, loc, t=None):
        v = st.cells.get(loc)
        if v is None:
            v = self.deflt(loc, t)
            if v.op in ("rec",): return v
            st.cells[loc] = v
        return v

    def wrcell(self, st, loc, v, line, t=None, decl=False):
        st.cells[loc] = v
        if decl:
            for d in self.decls: d.add(loc)
        for m in self.mods: m[0].add(loc)
        if not decl:
            self.effect(st, "set", line, base=loc, val=v)

    def lay(self, base, t, line):
        """record the block layout (rows, columns, row-major?) through which an array is accessed"""
        m = _LAY.match(t)
        if m and int(m.group(1)) > 1 and int(m.group(2)) > 1 and self.rec:
            self.layout.setdefault(base, {}).setdefault((int(m.group(1)), int(m.group(2)), int(m.group(3)) & 1), "%s:%s" % (self.stack[-1].f.get("file", "") if self.stack else "", line))

    def region_of(self, lv):
        return mk("region", lv)

    def rd(self, st, lv, t, line):
        """value of an lvalue"""
        if lv.op == "elem":
            base, off = lv.a
            s = strip(t or "")
            if s in self.p.records: return mk("rec", lv)
            if isvec(s): return self.rdcell(st, lv, t)
            if s.endswith("*") : return self.rdcell(st, lv, t)
            self.effect(st, "read", line, base=base, off=off, w=stride(s))
            self.ety.setdefault(base, set()).add(s)
            w = st.writes.get(base)
            if w:
                if self.localarr(base):
                    r = self.logged(base, w, off)
                    if r is not None: return r
                    w = ()
                for o, v, k in reversed(w):
                    if k == "range": break
                    if o is off: return v
                    d = numval(sub(o, off)) if o.op not in ("sub", "ij") and off.op not in ("sub", "ij") else None
                    if d is None or d == 0: break
            if (base, off) in self.preset: return self.preset[(base, off)]
            if eigdims(s):
                self.lay(base, s, line)
                return mload(base, off)
            return load(base, off)
        if lv.op == "subm":    # element of a matrix lvalue
            m, i, j = lv.a
            return self.rdsub(st, m, i, j, line, t)
        if lv.op == "ite":
            return ite(lv.a[0], self.rd(st, lv.a[1], t, line), self.rd(st, lv.a[2], t, line))
        v = self.rdcell(st, lv, t)
        if self.rec:
            self.effect(st, "get", line, base=lv)
        w = st.writes.get(mk("region", lv))
        if w and eigdims(strip(t or "")):
            return self.matwhole(st, lv, v, w, strip(t))
        return v

    def localarr(self, base):
        """a local array of numbers: its content is tracked through loops"""
        if base.op != "region": return False
        t = self.lty.get(base.a[0])
        return bool(t) and t.endswith("]") and "*" not in t and t.split("[")[0].strip() in NUMTYPES

    def logged(self, base, w, off, loop=None):
        """the value an element of a local array has according to the log of stores, or None"""
        pend = None     # value so far, still in terms of what the element held before the remaining stores
        for o, v, k in reversed(w):
            if k == "w":
                if o is off: x = v
                else:
                    if off.op in ("sub", "ij") or o.op in ("sub", "ij"): return None
                    d = numval(sub(o, off))
                    if d is None or d == 0: return None
                    continue
            else:
                x = self.inrange(o, v, off, loop)
                if x is None: return None
                if x is False: continue
            pend = x if pend is None else subst(pend, {OLD: x})
            if not mentions(pend, OLD): return pend
        if pend is not None and not w[0][2] == "?" : return subst(pend, {OLD: load(base, off)})
        return None

    def inrange(self, o, v, off, loop):
        """value stored at off by a completed loop over one variable; False when the loop misses off, None if unclear"""
        if len(o[0]) != 1: return None
        (t, n), f = o[0][0], o[1]
        if f.op in ("sub", "ij") or off.op in ("sub", "ij"): return None
        k = None
        for c, s_, nc in items(f):
            if s_ == ((t, 1),) and not nc: k = c
        if k is None: return None
        c0 = sub(f, scale(t, k))
        if mentions(c0, t): return None
        q = scale(sub(off, c0), TM.Fraction(1) / k)
        qv = numval(q)
        if qv is not None:
            if qv != int(qv): return False
            nv = numval(n)
            if nv is None: return None
            return subst(v, {t: q}) if 0 <= qv < nv else False
        vs = [(l.T, l.n) for l in self.ctx if isinstance(l, Loop) and l.known] + ([loop] if loop else [])
        for T_, n_ in vs:
            if n_ is n and (q is T_ or q is add(n_, num(-1), neg(T_))): return subst(v, {t: q})
        return None

    def contents(self, st, x, W, loop=None):
        """x with reads of local arrays replaced by what the log says they hold"""
        m = {}
        for y in walk(x):
            if y.op == "load" and y.a[0] not in W and st.writes.get(y.a[0]) and self.localarr(y.a[0]):
                r = self.logged(y.a[0], st.writes[y.a[0]], y.a[1], loop)
                if r is not None: m[y] = r
        return subst(x, m) if m else x

    def looplog(self, w, ws, L, n, vn, W):
        """the log entries that sum up the stores a loop makes to a local array, or None"""
        out = []
        for o, v, k in ws:
            own = load(w, o if k == "w" else o[1])
            v = subst(v, {own: OLD})
            for y in walk(v):
                if y.op in ("opq", "mopq", "uninit") and y is not OLD:
                    q = re.match(r"h(\d+)\.", str(y.a[0]))     # the value an enclosing loop starts its iteration with
                    if not q or int(q.group(1)) >= L.uid: return None
                if y.op in ("load", "mload", "elemof") and y.a[0] in W: return None
            off = o if k == "w" else o[1]
            if off.op in ("sub", "ij") or any(y.op == "load" for y in walk(off)): return None
            if mentions(off, L.T):
                if k != "w" or len(ws) > 1: return None
                out.append((([(L.T, n)], off), v, "range"))
                continue
            if mentions(v, OLD):
                d = sub(v, OLD)
                if mentions(d, OLD): return None
                v = add(OLD, sum_(L.T, n, d))
            elif mentions(v, L.T) or vn is None: return None
            if len(ws) > 1: return None
            out.append((o, v, k))
        return out

    def matwhole(self, st, lv, v, w, t, only=False):
        d = eigdims(t)
        if len(w) == 1 and w[0][2] == "range":
            rngs, off = w[0][0]
            val = w[0][1]
            if off.op == "ij" and len(rngs) == 2:
                i, j = off.a
                m = {r[0]: r[1] for r in rngs}
                if i in m and j in m and m[i] is num(d[0]) and m[j] is num(d[1]) and i is not j:
                    return mk("elementwise", d[0], d[1], subst(val, {i: mk("bvi", 0), j: mk("bvi", 1)}))
        return None if only else self.freshm("mat")

    def rdsub(self, st, m, i, j, line, t=None):
        if m.op == "elem":
            base, off = m.a
            self.effect(st, "read", line, base=base, off=mk("sub", off, i, j))
            w = st.writes.get(base)
            if w:
                so = mk("sub", off, i, j)
                for o, v, k in reversed(w):
                    if o is so and k != "range": return v
                    if k == "range": break
                    if o is off: return mk("elemof", v, i, j)
                    if o.op == "sub": break
                    d = numval(sub(o, off))
                    if d is None or d == 0: break
            return mk("elemof", mload(base, off), i, j)
        w = st.writes.get(mk("region", m))
        v = self.rdcell(st, m, None)
        if self.rec: self.effect(st, "get", line, base=m)
        if w:
            so = mk("ij", i, j)
            for o, vv, k in reversed(w):
                if k == "range": return self.fresh("me")
                if o is so: return vv
                d1, d2 = numval(sub(o.a[0], i)), numval(sub(o.a[1], j))
                if (d1 not in (None, 0)) or (d2 not in (None, 0)): continue
                return self.fresh("me")
        return mk("elemof", v, i, j)

    def wr(self, st, lv, v, t, line, decl=False):
        if v is None: v = self.fresh("void")
        if lv.op == "elem":
            base, off = lv.a
            s = strip(t or "")
            if s in self.p.records:
                self.copyrec(st, lv, v, s, line); return
            if isvec(s) or s.endswith("*"):
                self.wrcell(st, lv, v, line, t)
                self.effect(st, "store", line, base=base, off=off, val=v)
                for m in self.mods: m[1].add(base)
                return
            self.effect(st, "store", line, base=base, off=off, val=v, w=stride(s))
            self.ety.setdefault(base, set()).add(s)
            if s.startswith("Eigen"): self.lay(base, s, line)
            for m in self.mods: m[1].add(base)
            w = [x for x in st.writes.get(base, ())]
            w.append((off, v, "w"))
            if self.localarr(base) and len(w) < 40:
                if len(w) > 1 and w[-2][0] is off and not mentions(v, OLD): del w[-2]
            elif self.localarr(base): w = [(([], ZERO), ZERO, "range")] + w[-30:]
            else: w = w[-6:]
            st.writes[base] = w
            self.alias_clobber(st, base)
            return
        if lv.op == "subm":
            m, i, j = lv.a
            if m.op == "elem":
                base, off = m.a
                o = mk("sub", off, i, j)
            else:
                base, o = mk("region", m), mk("ij", i, j)
                if m.op not in ("elem",): self.rdcell(st, m, None)
                for mm in self.mods: mm[1].add(base)
            self.effect(st, "store", line, base=base, off=o, val=v)
            for mm in self.mods: mm[1].add(base)
            st.writes[base] = (list(st.writes.get(base, ())) + [(o, v, "w")])[-24:]
            return
        if lv.op == "ite":
            o1 = self.rd(st, lv.a[1], t, line); o2 = self.rd(st, lv.a[2], t, line)
            self.wr(st, lv.a[1], ite(lv.a[0], v, o1), t, line)
            self.wr(st, lv.a[2], ite(lv.a[0], o2, v), t, line)
            return
        s = strip(t or "")
        if v.op == "rec" or s in self.p.records:
            self.copyrec(st, lv, v, s, line, decl); return
        if eigdims(s):
            st.writes.pop(mk("region", lv), None)
        self.wrcell(st, lv, v, line, t, decl)

    def alias_clobber(self, st, base):
        """stores through one unknown pointer do not invalidate others: distinct pointer roots are taken as
        distinct arrays (the code passes __restrict pointers); the one documented alias (x and xmut) has one root."""

    def fields(self, rn):
        out = []
        for b in self.p.bases(rn):
            r = self.p.records.get(b)
            if r: out += r["fields"]
        return out

    def copyrec(self, st, dst, v, rn, line, decl=False):
        if v.op == "ite":
            a, b = v.a[1], v.a[2]
            self.copyrec(st, dst, b, rn, line, decl)
            self.note("conditional struct value", line)
            return
        if v.op != "rec":
            # unknown struct value: havoc fields
            for f in self.fields(rn):
                self.wrcell(st, mk("fld", dst, f["n"]), mk("sym", mk("fld", v, f["n"])), line, decl=decl) \
                    if f["tc"] != "ptr" else self.wrcell(st, mk("fld", dst, f["n"]), mk("ptr", mk("deref", mk("fld", v, f["n"])), ZERO), line, decl=decl)
            self.effect(st, "setrec", line, base=dst, val=v)
            return
        src = v.a[0]
        if src is dst: return
        rn2 = rn if rn in self.p.records else None
        if rn2 is None: return
        for f in self.fields(rn2):
            fs, fd = mk("fld", src, f["n"]), mk("fld", dst, f["n"])
            if f["tc"] == "rec" and strip(f["t"]) in self.p.records:
                self.copyrec(st, fd, mk("rec", fs), strip(f["t"]), line, decl)
            else:
                self.wrcell(st, fd, self.rdcell(st, fs, f["t"]), line, decl=decl)
        self.dyn.setdefault(dst, rn2)

    # ---------------- pointers
    def target(self, v, t, line=None):
        """lvalue a pointer value points to; t: pointee type"""
        if v.op == "ptr":
            base, off = v.a
            s = strip(t or "")
            if base.op == "cell":       # pointer to a scalar object
                return base.a[0] if off is ZERO else mk("elem", base, off)
            if off is ZERO and (s in self.p.records or base.op in ("obj", "heapobj")) and base.op not in ("heap",):
                return base
            if s in self.p.records and off is ZERO: return base
            return mk("elem", base, off)
        if v.op == "ite":
            a, b = v.a[1], v.a[2]
            if a is NULLP: return self.target(b, t)
            if b is NULLP: return self.target(a, t)
            return mk("ite", v.a[0], self.target(a, t), self.target(b, t))
        if v.op == "vec": return mk("elem", v.a[0], ZERO)
        return mk("elem", mk("deref", v), ZERO) if strip(t or "") not in self.p.records else mk("deref", v)

    def addr(self, lv):
        if lv.op == "elem": return mk("ptr", lv.a[0], lv.a[1])
        if lv.op == "ite": return mk("ite", lv.a[0], self.addr(lv.a[1]), self.addr(lv.a[2]))
        if lv.op == "subm": return mk("ptr", mk("matdata", lv.a[0]), mk("ij", lv.a[1], lv.a[2]))
        t = self.lty.get(lv)
        if lv.op in ("obj", "fld", "deref", "heapobj") and (t is None or strip(t) in self.p.records):
            return mk("ptr", lv, ZERO)
        return mk("ptr", mk("cell", lv), ZERO)

    def padd(self, v, k):
        if v.op == "ptr":
            off = v.a[1]
            if off.op in ("ij", "sub"): return mk("ptr", v.a[0], mk("padd", off, k))
            return mk("ptr", v.a[0], add(off, k))
        if v.op == "ite": return mk("ite", v.a[0], self.padd(v.a[1], k), self.padd(v.a[2], k))
        if v.op == "vec": return mk("ptr", v.a[0], k)
        if v is NULLP: return mk("ptr", mk("deref", NULLP), k)
        return mk("ptr", mk("deref", v), k)

    # ---------------- lvalues
    def lval(self, e, st):
        k = e["k"]
        if k == "ref":
            dk = e.get("dk")
            fr = self.stack[-1]
            if dk in ("var", "parm"):
                b = self.lookup(e["id"])
                if b is not None:
                    return b
                return mk("obj", "%s?" % e["n"])
            if dk == "glob":
                return mk("obj", "::" + e["n"])
            return mk("obj", e.get("n", "?"))
        if k == "mem":
            if e["arrow"]:
                b = self.target(self.val(e["b"], st), pointee(e["b"]["t"]) or e["cls"])
            else:
                eb = e["b"]
                while eb["k"] == "cast" and eb.get("ck") in ("NoOp", "LValueToRValue") and eb["e"]["k"] in ("ref", "mem", "cast", "idx"): eb = eb["e"]
                if eb is not e["b"]: e = dict(e, b=eb)
                if e["b"]["k"] in ("call", "opcall", "ctor", "cond", "initlist", "cast") and not e["b"]["t"].endswith("&"):
                    v = self.val(e["b"], st)
                    b = v.a[0] if v.op == "rec" else mk("deref", v)
                    if v.op == "ptr": b = self.target(v, e["cls"])
                else:
                    b = self.lval(e["b"], st)
            return self.field(st, b, e["f"], e["t"], e["cls"])
        if k == "un" and e["op"] == "*":
            return self.target(self.val(e["e"], st), e["t"])
        if k == "un" and e["op"] in ("++", "--") and not e["post"]:
            self.val(e, st)
            return self.lval(e["e"], st)
        if k == "idx":
            b = self.val(e["b"], st)
            i = self.val(e["i"], st)
            s = stride(strip(e["t"]))
            return self.target(self.padd(b, scale(i, s)), e["t"])
        if k == "cast": return self.lval(e["e"], st)
        if k == "cond":
            c = self.cond(e["c"], st)
            if c is TRUE: return self.lval(e["a"], st)
            if c is FALSE: return self.lval(e["b"], st)
            return mk("ite", c, self.lval(e["a"], st), self.lval(e["b"], st))
        if k == "bin" and (e.get("asg") or e["op"] == ","):
            if e["op"] == ",":
                self.val(e["l"], st)
                return self.lval(e["r"], st)
            self.val(e, st)
            return self.lval(e["l"], st)
        if k == "this": return self.stack[-1].this
        if k in ("call", "opcall"):
            r = self.call(e, st, want_lv=True)
            if isinstance(r, T) and r.op == "lv": return r.a[0]
            if isinstance(r, T) and r.op == "rec": return r.a[0]
            t = mk("obj", "tmp%d" % self._n())
            self.wr(st, t, r, e["t"], e["line"], decl=True)
            return t
        v = self.val(e, st)
        if v.op == "rec": return v.a[0]
        t = mk("obj", "tmp%d" % self._n())
        if e["tc"] == "rec" and isvec(e["t"]) : pass
        self.wr(st, t, v, e["t"], e["line"], decl=True)
        return t

    def _n(self):
        self.uid += 1
        return self.uid

    def lookup(self, i):
        fr = self.stack[-1]
        f = fr
        while f is not None:
            if i in f.env: return f.env[i]
            f = f.lnest
        return None

    def field(self, st, b, f, t, cls):
        if b.op == "ite":
            return mk("ite", b.a[0], self.field(st, b.a[1], f, t, cls), self.field(st, b.a[2], f, t, cls))
        loc = mk("fld", b, f)
        self.lty.setdefault(loc, t)
        ft = None
        for x in self.fields(cls) or ():
            if x["n"] == f: ft = x["t"]
        if ft and ft.strip().endswith("&"):
            v = self.rdcell(st, loc, ft)
            return v.a[0] if v.op == "lv" else mk("deref", loc)
        return loc

    # ---------------- expressions
    def cond(self, e, st):
        return tocond(self.val(e, st))

    def val(self, e, st):
        self.steps += 1
        if self.steps > self.budget: raise TooBig()
        k = e["k"]
        if "cv" in e and k not in ("call", "opcall", "bin", "un", "cond") : return num(e["cv"])
        if "cv" in e and k in ("bin", "un", "cond") and not (k == "bin" and e.get("asg")) and not (k == "un" and e["op"] in ("++", "--")):
            return num(e["cv"])
        f = getattr(self, "e_" + k, None)
        if f is None:
            self.note("expression " + k + " " + str(e.get("cls")), e.get("line"))
            for c in e.get("ch", ()) or ():
                if c: self.val(c, st)
            return self.fresh("x")
        return f(e, st)

    def e_int(self, e, st): return num(e["v"])
    def e_flt(self, e, st): return num(TM.Fraction(e["v"])) if e["v"] == e["v"] and abs(e["v"]) != float("inf") else mk("call", "const", mk("str", str(e["v"])))
    def e_str(self, e, st): return string(e.get("v", "?"))
    def e_null(self, e, st): return NULLP

    def e_zero(self, e, st):
        if e["tc"] == "ptr": return NULLP
        if e["tc"] == "rec" and strip(e["t"]) in self.p.records: return self.zerorec(e["t"], st, e["line"])
        return ZERO

    def zerorec(self, t, st, line):
        loc = mk("obj", "zero%d" % self._n())
        for f in self.fields(strip(t)):
            if f["tc"] == "rec": continue
            st.cells[mk("fld", loc, f["n"])] = NULLP if f["tc"] == "ptr" else ZERO
        return mk("rec", loc)

    def e_this(self, e, st): return mk("ptr", self.stack[-1].this, ZERO)

    def e_sizeof(self, e, st):
        t = strip(e["st"])
        s = stride(t)
        if s > 1: return scale(mk("sizeof", "double"), s)
        return mk("sizeof", t)

    def e_ref(self, e, st):
        dk = e.get("dk")
        if "cv" in e: return num(e["cv"])
        if dk == "func": return mk("fnref", e["fn"])
        lv = self.lval(e, st)
        if dk == "glob":
            if lv not in st.cells:
                g = self.p.globals.get(e["n"])
                if g and "init" in g and (g["t"].startswith("const ") or g["t"].endswith("const") ) and not g.get("static"):
                    try:
                        v = self.val(g["init"], State())
                        if v.op in ("str", "poly"): st.cells[lv] = v
                    except (KeyError, AttributeError):
                        pass
        t = e.get("dt") or e["t"]
        if strip(t).endswith("]") or "[" in strip(t):
            v = st.cells.get(lv)
            return v if v is not None and v.op == "ptr" else mk("ptr", mk("region", lv), ZERO)
        return self.rd(st, lv, t.strip().rstrip("& "), e["line"])      # a reference is the object it names

    def e_mem(self, e, st):
        if e["f"] in ("first", "second") and not e.get("arrow") and strip(e["b"]["t"]).startswith("std::pair<"):
            v = None
            if e["b"]["k"] in ("ref", "mem", "idx"):
                fl = mk("fld", self.lval(e["b"], st), e["f"])
                if fl in st.cells: return st.cells[fl]
            v = self.part(self.val(e["b"], st), 1 + (e["f"] == "second"))
            if v is not None: return v
        lv = self.lval(e, st)
        if "[" in strip(e["t"]): return mk("ptr", mk("region", lv), ZERO)
        return self.rd(st, lv, e["t"], e["line"])

    def e_idx(self, e, st):
        lv = self.lval(e, st)
        return self.rd(st, lv, e["t"], e["line"])

    def e_cond(self, e, st):
        c = self.cond(e["c"], st)
        if c is TRUE: return self.val(e["a"], st)
        if c is FALSE: return self.val(e["b"], st)
        isassert = e["b"]["k"] == "call" and e["b"].get("fn") == "__assert_fail"
        if isassert:
            self.effect(st, "assert", e["line"], val=c)
            return ZERO
        s1, s2 = st.copy(), st.copy()
        a = self.guarded(c, e["line"], lambda: self.val(e["a"], s1))
        b = self.guarded(not_(c), e["line"], lambda: self.val(e["b"], s2))
        self.merge(st, c, s1, s2)
        if a.op == "rec" or b.op == "rec":
            if a.op == "rec" and b.op == "rec": return mk("ite", c, a, b)
            return a
        if a.op == "ptr" or b.op == "ptr": return self.pite(c, a, b)
        if s1.dead and not s2.dead: return b
        if s2.dead and not s1.dead: return a
        return ite(c, a, b)

    def part(self, v, i):
        """i-th component of a pair value, or None"""
        if v is None: return None
        if v.op == "call" and v.a[0] == "pair": return v.a[i]
        if v.op == "ite":
            a, b = self.part(v.a[1], i), self.part(v.a[2], i)
            if a is not None and b is not None: return self.pite(v.a[0], a, b)
        return None

    def pite(self, c, a, b):
        if a is b: return a
        if a.op == "call" and b.op == "call" and a.a[0] == "pair" and b.a[0] == "pair":
            return mk("call", "pair", self.pite(c, a.a[1], b.a[1]), self.pite(c, a.a[2], b.a[2]))
        if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0] and a.a[1].op not in ("ij", "sub", "padd"):
            return mk("ptr", a.a[0], ite(c, a.a[1], b.a[1]))
        return ite(c, a, b)

    def guarded(self, c, line, fn):
        i = If(); i.c, i.line = c, line
        self.ctx.append(i)
        try:
            return fn()
        finally:
            self.ctx.pop()

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.lval(e["e"], st)
            old = self.rd(st, lv, e["e"]["t"], e["line"])
            d = 1 if op == "++" else -1
            pt = pointee(e["e"]["t"]) if e["e"]["tc"] == "ptr" or old.op == "ptr" else None
            new = self.padd(old, num(d * stride(pt))) if old.op in ("ptr", "vec") else add(old, num(d))
            self.wr(st, lv, new, e["e"]["t"], e["line"])
            return old if e["post"] else new
        if op == "*":
            return self.rd(st, self.lval(e, st), e["t"], e["line"])
        if op == "&":
            x = e["e"]
            if x["k"] == "ref" and x.get("dk") == "func": return mk("fnref", x["fn"])
            lv = self.lval(x, st)
            self.lty.setdefault(lv, x["t"])
            if x["tc"] == "rec" and strip(x["t"]) in self.p.records and lv.op != "elem": return mk("ptr", lv, ZERO)
            if lv.op in ("elem", "ite", "subm"): return self.addr(lv)
            if isvec(x["t"]) or strip(x["t"]) in self.p.records: return mk("ptr", lv, ZERO)
            return mk("ptr", mk("cell", lv), ZERO)
        v = self.val(e["e"], st)
        if op == "-": return neg(v)
        if op == "+": return v
        if op == "!": return not_(tocond(v))
        if op == "~": return mk("call", "~", v)
        return v

    def e_bin(self, e, st):
        op = e["op"]
        if e.get("asg"):
            lt = e["l"]["t"]
            if op == "=":
                v = self.val(e["r"], st)
                lv = self.lval(e["l"], st)
                self.wr(st, lv, v, lt, e["line"])
                return v
            rv = self.val(e["r"], st)
            lv = self.lval(e["l"], st)
            old = self.rd(st, lv, lt, e["line"])
            if old.op == "ptr":
                s = stride(pointee(lt))
                new = self.padd(old, scale(rv if op == "+=" else neg(rv), s))
            else:
                new = self.arith(op[:-1], old, rv, e["l"]["tc"])
            self.wr(st, lv, new, lt, e["line"])
            return new
        if op == ",":
            self.val(e["l"], st)
            return self.val(e["r"], st)
        if op in ("&&", "||"):
            a = self.cond(e["l"], st)
            if op == "&&" and a is FALSE: return FALSE
            if op == "||" and a is TRUE: return TRUE
            g = a if op == "&&" else not_(a)
            b = self.guarded(g, e["line"], lambda: self.cond(e["r"], st)) if g is not TRUE else self.cond(e["r"], st)
            return and_(a, b) if op == "&&" else or_(a, b)
        a = self.val(e["l"], st)
        b = self.val(e["r"], st)
        return self.binop(op, a, b, e["l"], e["r"], e)

    def binop(self, op, a, b, el, er, e):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = toval(a) if a.op in COND and op not in ("==", "!=") else a, toval(b) if b.op in COND and op not in ("==", "!=") else b
            isint = el["tc"] in ("int", "enum", "bool") and er["tc"] in ("int", "enum", "bool") or (a.op == "ptr" and b.op == "ptr")
            if a.op == "ite" and a.a[1].op in ("ptr", "null") or b.op == "ite" and b.a[1].op in ("ptr", "null"):
                for x, y in ((a, b), (b, a)):
                    if x.op == "ite": return ite_c(x.a[0], self.binop(op, x.a[1], y, el, er, e), self.binop(op, x.a[2], y, el, er, e))
            if op in ("==", "!=") and (a.op in ("ptr", "null", "str") or b.op in ("ptr", "null", "str")):
                if el["tc"] == "ptr" and b is ZERO: b = NULLP
                r = eq(a, b)
                return r if op == "==" else not_(r)
            return cmp(op, a, b, isint)
        if a.op in ("ptr", "vec") or (a.op == "ite" and a.a[1].op in ("ptr", "null")):
            if op == "+": return self.padd(a, scale(b, stride(pointee(el["t"]))))
            if op == "-":
                if b.op == "ptr":
                    if a.op == "ptr" and a.a[0] is b.a[0]:
                        d = sub(a.a[1], b.a[1]); s = stride(pointee(el["t"]))
                        return scale(d, TM.Fraction(1, s)) if s > 1 else d
                    return mk("call", "ptrdiff", a, b)
                return self.padd(a, scale(neg(b), stride(pointee(el["t"]))))
        if b.op in ("ptr", "vec") and op == "+":
            return self.padd(b, scale(a, stride(pointee(er["t"]))))
        return self.arith(op, a, b, e["tc"])

    def arith(self, op, a, b, tc):
        a, b = toval(a), toval(b)
        if a.op in COND: a = mk("b2i", a)
        if b.op in COND: b = mk("b2i", b)
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        if op == "/":
            if tc in ("int", "enum"):
                vb = numval(b)
                va = numval(a)
                if va is not None and vb: 
                    q = abs(va) // abs(vb)
                    return num(q if (va < 0) == (vb < 0) else -q)
                if vb and all((c / vb).denominator == 1 for c, _, _ in items(a)): return scale(a, 1 / vb)
                it = items(b)
                if len(it) == 1:
                    # exact division by a common monomial, e.g. (n*bs)/bs
                    r = div(a, b)
                    if all(p > 0 for _, s, _ in items(r) for _, p in s) and all(c.denominator == 1 for c, _, _ in items(r)): return r
                return mk("call", "idiv", a, b)
            return div(a, b)
        if op in ("|", "&", "^", "%", "<<", ">>"):
            va, vb = numval(a), numval(b)
            if va is not None and vb is not None and va.denominator == 1 and vb.denominator == 1:
                va, vb = int(va), int(vb)
                try:
                    return num({"|": va | vb, "&": va & vb, "^": va ^ vb, "%": va - vb * int(va / vb) if vb else 0, "<<": va << vb if vb < 64 else 0, ">>": va >> vb}[op])
                except Exception:
                    pass
            if op == "<<" and vb is not None and vb < 32: return scale(a, 2 ** int(vb))
            if op == "%" and vb is not None and vb > 0: return sub(a, scale(self.arith("/", a, b, tc), vb))
            if op in ("|", "&") and tc == "bool": return mk("b2i", (or_ if op == "|" else and_)(tocond(a), tocond(b)))
            return mk("call", op, a, b)
        return mk("call", op, a, b)

    def e_cast(self, e, st):
        if e["e"]["tc"] == "rec" or e["ck"] in ("NoOp", "ConstructorConversion", "UserDefinedConversion"):
            return self.val(e["e"], st)
        v = self.val(e["e"], st)
        if e["ck"] in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return tocond(v)
        if e["ck"] == "FloatingToIntegral":
            nv = numval(v)
            if nv is not None: return num(int(nv))
            return mk("call", "trunc", v)
        if e["ck"] == "NullToPointer": return NULLP
        return v

    def e_memfn(self, e, st): return mk("fnref", e["fn"])

    def e_throw(self, e, st):
        if e.get("e"): self.val(e["e"], st)
        self.unwind(st, e["line"])
        self.effect(st, "throw", e["line"], name=e.get("tt", "rethrow"))
        st.dead = "throw"
        return ZERO

    def e_new(self, e, st):
        n = self.val(e["n"], st) if e.get("n") else None
        self.uid += 1
        if e["place"]:
            for a in e["place"]: self.val(a, st)
        if strip(e["at"]) in self.p.records and not e["arr"]:
            o = mk("heapobj", "%s@%s:%d" % (strip(e["at"]), self.stack[-1].f["short"], self.uid))
            self.dyn[o] = strip(e["at"])
            self.effect(st, "alloc", e["line"], base=o, val=ONE, name="new", extra=e["at"])
            if e.get("init"): self.construct(e["init"], o, st, e["line"])
            return mk("ptr", o, ZERO)
        b = mk("heap", "new@%s:%d" % (self.stack[-1].f["short"], self.uid))
        self.effect(st, "alloc", e["line"], base=b, val=n if n is not None else ONE, name="new[]" if e["arr"] else "new", extra=e["at"])
        if e.get("init") and not e["arr"] and e["init"]["k"] != "ctor":
            v = self.val(e["init"], st)
            self.wr(st, mk("elem", b, ZERO), v, e["at"], e["line"])
        elif e.get("init"):
            if e["init"]["k"] == "ctor":
                for a in e["init"]["args"]: self.val(a, st)
            else: self.effect(st, "zeroinit", e["line"], base=b)
        return mk("ptr", b, ZERO)

    def e_delete(self, e, st):
        v = self.val(e["e"], st)
        if not e["arr"] and v.op == "ptr" and v.a[0] in self.dyn: self.destroy(st, v.a[0], self.dyn[v.a[0]], e["line"])
        self.effect(st, "free", e["line"], val=v, name="delete[]" if e["arr"] else "delete", extra=e["e"].get("t"))
        return ZERO

    # ---------------- destruction
    def dtorof(self, rn):
        if rn not in self._triv:
            f = next((f for f in self.p.funcs.values() if f.get("dtor") and f.get("cls") == rn and "body" in f), None)
            triv = f is None or not f["body"].get("s")
            r = self.p.records.get(rn)
            self._triv[rn] = (None, True)
            if r:
                triv = triv and all(self.dtorof(strip(x["t"]))[1] for x in r["fields"] if x["tc"] == "rec") and all(self.dtorof(b)[1] for b in r["bases"])
            self._triv[rn] = (f, triv)
        return self._triv[rn]

    def destroy(self, st, loc, rn, line):
        """run the destructor of the object of class rn at loc, then those of its members and bases"""
        f, triv = self.dtorof(rn)
        if triv or rn not in self.p.records: return
        if f is not None and f["body"].get("s"): self.inline(f, [], loc, st, line)
        r = self.p.records[rn]
        for fd in reversed(r["fields"]):
            if fd["tc"] == "rec": self.destroy(st, mk("fld", loc, fd["n"]), strip(fd["t"]), line)
        for b in reversed(r["bases"]): self.destroy(st, loc, b, line)

    def endscope(self, st, autos, line):
        """destroy local objects going out of scope"""
        if not autos: return
        d, st.dead = st.dead, None
        self.unwinding += 1
        for loc, rn in reversed(autos): self.destroy(st, loc, rn, line)
        self.unwinding -= 1
        st.dead = d

    def unwind(self, st, line):
        """destroy the local objects of all frames an exception leaves"""
        for fr in reversed(self.stack):
            m = fr.tmark[-1] if fr.tmark else 0
            self.endscope(st, fr.autos[m:], line)
            if fr.tmark: break

    def e_lambda(self, e, st):
        self.uid += 1
        t = mk("lambda", self.uid)
        self.lam[t] = (e, self.stack[-1])
        return t

    def e_stmtexpr(self, e, st):
        self.stmt(e["body"], st)
        return self.fresh("se")

    def e_initlist(self, e, st):
        rn = e.get("cls")
        if rn in self.p.records:
            loc = mk("obj", "agg%d" % self._n())
            self.agg(e, loc, st)
            return mk("rec", loc)
        vs = [self.val(a, st) for a in e["args"] if a]
        if len(vs) == 1 and e["tc"] not in ("array", "rec"): return vs[0]
        if not vs and e["tc"] not in ("array", "rec"): return NULLP if e["tc"] == "ptr" else ZERO
        if e["tc"] in ("array",) or isvec(e["t"]):
            # flatten std::array{{...}}
            if len(vs) == 1 and vs[0].op == "vec": return vs[0]
            r = mk("region", mk("obj", "il%d" % self._n()))
            st.writes[r] = [(num(i), v, "w") for i, v in enumerate(vs)][-6:]
            if len(vs) > 6: st.writes.pop(r)
            if e["tc"] == "array" and not isvec(e["t"]): return mk("vec", r)
            return mk("vec", r)
        return mk("call", "initlist", *vs)

    def agg(self, e, loc, st):
        rn = e["cls"]
        self.dyn.setdefault(loc, rn)
        fs = {f["n"]: f for f in self.p.records[rn]["fields"]}
        for n, a in zip(e["fields"], e["args"]):
            f = fs.get(n)
            if a is None or f is None: continue
            fl = mk("fld", loc, n)
            if f["tc"] == "rec" and strip(f["t"]) in self.p.records:
                self.construct(a, fl, st, e["line"])
            else:
                v = self.val(a, st)
                if f["tc"] == "ptr" and v is ZERO: v = NULLP
                self.wrcell(st, fl, v, e["line"], decl=True)

    def e_ctor(self, e, st):
        rn = e["cls"]
        if rn in self.p.records:
            loc = mk("obj", "tmp.%s.%d" % (rn.split("<")[0].split("::")[-1], self._n()))
            self.dyn[loc] = rn
            self.construct(e, loc, st, e["line"])
            return mk("rec", loc)
        return self.libctor(e, st)

    def libctor(self, e, st):
        rn = e["cls"]
        args = [a for a in e["args"] if a]
        if isvec(rn) and not (e.get("copy") or e.get("move")):
            r = mk("region", mk("obj", "vec%d" % self._n()))
            vs = [self.val(a, st) for a in args if not (strip(a["t"]).startswith("std::allocator") or strip(a["t"]).endswith("allocator_type"))]
            sz = mk("fld", r, "$size")
            if rn.startswith("std::array<"):
                m = re.search(r", (\d+)(?:UL)?>$", rn)
                st.cells[sz] = num(int(m.group(1))) if m else self.fresh("sz")
            elif not vs: st.cells[sz] = ZERO
            elif len(vs) == 2 and all(x.op == "call" and x.a[0] in ("set.begin", "set.end") for x in vs):
                good = vs[0].a[0] == "set.begin" and vs[1].a[0] == "set.end" and vs[0].a[1] is vs[1].a[1]
                st.cells[sz] = mk("call", "set.size", vs[0].a[1]) if good else self.fresh("sz")
                self.effect(st, "alloc", e["line"], base=r, val=st.cells[sz], name="vector", extra=rn)
                self.effect(st, "fill", e["line"], base=r, val=mk("call", "set.items", vs[0].a[1]) if good else self.fresh())
            elif len(vs) == 2 and args[0]["tc"] == "rec" and "iterator" in args[0]["t"] and not (vs[0].op == vs[1].op == "ptr" and vs[0].a[0] is vs[1].a[0]):
                st.cells[sz] = self.fresh("sz")
                self.effect(st, "alloc", e["line"], base=r, val=st.cells[sz], name="vector", extra=rn)
                self.effect(st, "fill", e["line"], base=r, val=mk("call", "range", *vs))
            elif vs[0].op in ("ptr", "vec"):
                if vs[0].op == "vec" and len(vs) == 1: return vs[0]
                st.cells[sz] = sub(vs[1].a[1], vs[0].a[1]) if len(vs) > 1 and vs[0].op == "ptr" and vs[1].op == "ptr" and vs[1].a[0] is vs[0].a[0] else self.fresh("sz")
                if len(vs) > 1 and vs[0].op == "ptr" and vs[1].op == "ptr" and vs[1].a[0] is vs[0].a[0]:
                    self.effect(st, "alloc", e["line"], base=r, val=st.cells[sz], name="vector", extra=rn)
                    self.bulk("copy", st.cells[sz], [vs[0], None, mk("ptr", r, ZERO)], e, st)
            else:
                st.cells[sz] = vs[0]
                self.effect(st, "alloc", e["line"], base=r, val=vs[0], name="vector", extra=rn)
                if len(vs) > 1: self.effect(st, "fill", e["line"], base=r, val=vs[1])
                elif True: self.effect(st, "fill", e["line"], base=r, val=ZERO)
            return mk("vec", r)
        if e.get("copy") or e.get("move"):
            v = self.val(args[0], st)
            if v.op == "vec" and e.get("copy"):
                r = mk("region", mk("obj", "vcopy%d" % self._n()))
                st.cells[mk("fld", r, "$size")] = self.rdcell(st, mk("fld", v.a[0], "$size"), "unsigned long")
                self.effect(st, "veccopy", e["line"], base=r, val=v)
                return mk("vec", r)
            return v
        vs = [self.val(a, st) for a in args]
        if rn.startswith("std::pair<") and len(vs) == 2: return mk("call", "pair", *vs)
        if rn.startswith("Eigen::Matrix"):
            if len(vs) == 1 and (is_mat(vs[0]) or vs[0] is ZERO): return vs[0]
            if not vs: return self.freshm("uninit")
            return self.freshm("mat")
        if rn.startswith(("std::__cxx11::basic_string", "std::basic_string<")):
            if len(vs) and vs[0].op in ("str", "sym", "load"): return vs[0]
            if not vs: return string("")
            if len(vs) and vs[0].op == "ptr": return mk("call", "string", vs[0])
        if "Eigen" in rn:
            if len(vs) == 1: return vs[0]
        if not vs: return mk("call", "ctor:" + rn)
        return mk("call", "ctor:" + rn, *vs)

    # ---------------- construction
    def construct(self, e, loc, st, line):
        """run the constructor expression e on the object at loc"""
        if e["k"] == "initlist" and e.get("cls") in self.p.records:
            self.agg(e, loc, st); return
        if e["k"] == "zero":
            for f in self.fields(strip(e["t"])):
                if f["tc"] != "rec": self.wrcell(st, mk("fld", loc, f["n"]), NULLP if f["tc"] == "ptr" else ZERO, line, decl=True)
            return
        if e["k"] != "ctor":
            v = self.val(e, st)
            rn = strip(e["t"])
            self.copyrec(st, loc, v, rn, line, decl=True)
            return
        rn = e["cls"]
        if rn not in self.p.records:
            v = self.libctor(e, st)
            self.wrcell(st, loc, v, line, decl=True)
            return
        f = self.p.funcs.get(e["key"])
        if f is None or "body" not in f:
            if (e.get("copy") or e.get("move")) and e["args"]:
                v = self.val(e["args"][0], st)
                self.copyrec(st, loc, v if v.op == "rec" else mk("rec", self.lval(e["args"][0], st)), rn, line, decl=True)
                return
            if f is None:
                # implicit default constructor: in-class initialisers, else uninitialised
                self.definit(rn, loc, st, line, set())
                return
        args = self.bindargs(f, e["args"], st)
        self.runctor(f, loc, args, st, line)

    def definit(self, rn, loc, st, line, done):
        r = self.p.records.get(rn)
        if not r: return
        for b in r["bases"]: self.definit(b, loc, st, line, done)
        for fd in r["fields"]:
            fl = mk("fld", loc, fd["n"])
            if fd["n"] in done: continue
            if fd.get("init"):
                self.wrcell(st, fl, self.fixnull(self.val(fd["init"], st), fd["tc"]), line, decl=True)
            elif fd["tc"] == "rec" and strip(fd["t"]) in self.p.records:
                self.definit_ctor(strip(fd["t"]), fl, st, line)
            elif isvec(fd["t"]):
                rg = mk("region", fl)
                st.cells[fl] = mk("vec", rg)
                if "vector" in fd["t"]: st.cells[mk("fld", rg, "$size")] = ZERO
            else:
                v = mk("uninit", fl) if fd["tc"] != "ptr" else mk("ptr", mk("uninitp", fl), ZERO)
                self.wrcell(st, fl, v, line, decl=True)

    def definit_ctor(self, rn, loc, st, line):
        for f in self.p.funcs.values():
            if f.get("ctor") and f.get("cls") == rn and not f["params"] and "body" in f:
                self.runctor(f, loc, [], st, line)
                return
        self.definit(rn, loc, st, line, set())

    def fixnull(self, v, tc):
        return NULLP if tc == "ptr" and v is ZERO else v

    def runctor(self, f, loc, args, st, line):
        self.dyn.setdefault(loc, f["cls"])
        fr = self.push(f, args, loc)
        if fr is None: return
        self.bindparams(fr, args, st)
        try:
            done = set()
            r = self.p.records.get(f["cls"])
            fts = {x["n"]: x for x in (r["fields"] if r else ())}
            deleg = False
            for i in f.get("inits", ()):
                if i["kind"] == "mem":
                    done.add(i["f"])
                    fl = mk("fld", loc, i["f"])
                    ft = fts.get(i["f"])
                    if not i.get("e") or ft is None: continue
                    self.lty.setdefault(fl, ft["t"])
                    if ft["t"].strip().endswith("&"):
                        lv = self.lval(i["e"], st)
                        self.wrcell(st, fl, mk("lv", lv), f["line"], decl=True)
                    elif strip(ft["t"]) in self.p.records:
                        self.construct(i["e"], fl, st, f["line"])
                    else:
                        v = self.fixnull(self.val(i["e"], st), ft["tc"])
                        if v.op == "mopq" and False: pass
                        self.wrcell(st, fl, v, i["e"].get("line", f["line"]))
                elif i["kind"] == "base":
                    if i["e"]["k"] in ("ctor",) and i.get("cls") in self.p.records:
                        g = self.p.funcs.get(i["e"]["key"])
                        if g is not None and "body" in g:
                            a = self.bindargs(g, i["e"]["args"], st)
                            self.runctor(g, loc, a, st, line)
                        elif (i["e"].get("copy") or i["e"].get("move")) and i["e"]["args"]:
                            self.construct(i["e"], loc, st, line)
                        else:
                            self.definit(i["cls"], loc, st, line, set())
                elif i["kind"] == "deleg":
                    deleg = True
                    g = self.p.funcs.get(i["e"]["key"]) if i["e"]["k"] == "ctor" else None
                    if g is not None: self.runctor(g, loc, self.bindargs(g, i["e"]["args"], st), st, line)
            if not deleg and r:
                r2 = dict(r); 
                for fd in r["fields"]:
                    if fd["n"] in done: continue
                    fl = mk("fld", loc, fd["n"])
                    if fl in st.cells and fd["tc"] != "rec" : pass
                    if fd.get("init"):
                        self.wrcell(st, fl, self.fixnull(self.val(fd["init"], st), fd["tc"]), line, decl=True)
                    elif fd["tc"] == "rec" and strip(fd["t"]) in self.p.records:
                        self.definit_ctor(strip(fd["t"]), fl, st, line)
                    elif isvec(fd["t"]):
                        rg = mk("region", fl)
                        st.cells[fl] = mk("vec", rg)
                        if "vector" in fd["t"]: st.cells[mk("fld", rg, "$size")] = ZERO
                    else:
                        v = mk("uninit", fl) if fd["tc"] != "ptr" else mk("ptr", mk("uninitp", fl), ZERO)
                        self.wrcell(st, fl, v, line, decl=True)
            if "body" in f:
                self.stmt(f["body"], st)
        finally:
            self.pop(fr, st)

    # ---------------- calls
    def bindargs(self, f, args, st):
        out = []
        ps = f["params"]
        for i, a in enumerate(args):
            if a is None: continue
            p = ps[i] if i < len(ps) else None
            if p is not None and p["tc"] == "ref":
                out.append(("lv", self.lval(a, st)))
            else:
                v = self.val(a, st)
                if p is not None and p["tc"] == "ptr" and v is ZERO: v = NULLP
                out.append(("v", v))
        return out

    def push(self, f, args, this):
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x.f is f) > 1:
            self.note("recursion into " + f["q"], f["line"])
            return None
        fr = Frame()
        self.uid += 1
        fr.f, fr.uid, fr.env, fr.rets, fr.this, fr.lnest = f, self.uid, {}, [], this, None
        fr.depth = len(self.ctx)
        fr.autos, fr.lmark, fr.tmark = [], [], []
        self.inlined[f["key"]] = self.inlined.get(f["key"], 0) + 1
        self.stack.append(fr)
        return fr

    def pop(self, fr, st):
        self.stack.pop()

    def bindparams(self, fr, args, st):
        for p, a in zip(fr.f["params"], args):
            if a[0] == "lv":
                fr.env[p["id"]] = a[1]
            else:
                loc = mk("obj", "%s#%d" % (p["n"], fr.uid))
                fr.env[p["id"]] = loc
                self.lty[loc] = p["t"]
                v = a[1]
                if p["tc"] == "rec" and strip(p["t"]) in self.p.records: self.copyrec(st, loc, v, strip(p["t"]), fr.f["line"], decl=True)
                else: self.wrcell(st, loc, v, fr.f["line"], decl=True)

    def inline(self, f, args, this, st, line, want_lv=False):
        fr = self.push(f, args, this)
        if fr is None:
            return None
        ns, nl = len(self.ctx), len(st.live)
        self.bindparams(fr, args, st)
        fr.rets = []
        retref = f["rtc"] == "ref"
        try:
            self.stmt(f["body"], st)
        finally:
            self.pop(fr, st)
        if st.dead == "ret": st.dead = None
        # returns restore reachability: conditions that only distinguished returned paths are dropped
        keep = [x for x in st.live[nl:] if x[1] == "throw"]
        st.live = st.live[:nl] + keep
        if f["rtc"] == "void" or not fr.rets: return ZERO
        vals = fr.rets
        res = vals[-1][1]
        for g, v, lp in reversed(vals[:-1]):
            if lp: res = self.fresh("ret") if not is_mat(v) else self.freshm("ret"); break
            if res is v: continue
            res = self.pite(and_(*g), v, res) if v.op not in ("rec", "lv") else (v if v is res else mk("ite", and_(*g), v, res))
        if any(lp for _, _, lp in vals): res = self.fresh("ret")
        if retref and not want_lv and res.op == "lv":
            return self.rd(st, res.a[0], f["ret"], line)
        return res

    def e_call(self, e, st):
        r = self.call(e, st)
        return r

    def e_opcall(self, e, st):
        return self.call(e, st)

    def objlv(self, e, st):
        o = e.get("obj")
        if o is None: return None
        if e.get("arrow"):
            return self.target(self.val(o, st), pointee(o["t"]) or e.get("cls"))
        if o["tc"] == "ptr" and o["k"] == "this": return self.stack[-1].this
        return self.lval(o, st)

    def call(self, e, st, want_lv=False):
        self.steps += 1
        if self.steps > self.budget: raise TooBig()
        fn = e.get("fn")
        line = e["line"]
        if fn is None:
            if e.get("callee"):
                c = self.val(e["callee"], st)
                vs = [self.val(a, st) for a in e["args"]]
                self.effect(st, "call", line, name="*" + repr(c), args=vs)
            return self.fresh("ind")
        base = fn.split("<")[0] if not fn.startswith("operator") else fn
        f = self.p.funcs.get(e.get("key"))
        # lambda call
        if e["k"] == "opcall" and e["op"] == "()" and e["args"]:
            cv = None
            if e["args"][0]["k"] in ("ref", "lambda"):
                cv = self.val(e["args"][0], st)
            if cv is not None and cv.op == "lambda":
                return self.calllambda(cv, e["args"][1:], st, line)
        if e.get("virt") or e.get("obj") is not None or (e["k"] == "opcall" and e.get("ismem")):
            return self.methodcall(e, st, f, want_lv)
        if e["k"] == "opcall" and (f is None or "body" not in f):
            return self.libop(e, st, want_lv)
        if f is not None and "body" in f and f["q"] not in self.noinline:
            args = self.bindargs(f, e["args"], st)
            r = self.inline(f, args, None, st, line, want_lv)
            if r is not None: return r
        return self.extern(e, st, base, want_lv)

    def calllambda(self, cv, args, st, line):
        le, fr0 = self.lam[cv]
        f = {"key": le["key"], "q": "lambda", "short": "lambda", "params": le["params"], "body": le["body"], "line": le["line"],
             "file": fr0.f["file"], "rtc": "v", "ret": "?", "n": "lambda"}
        a = self.bindargs(f, args, st)
        fr = self.push(f, a, fr0.this)
        if fr is None: return self.fresh("lam")
        fr.lnest = fr0
        nl = len(st.live)
        self.bindparams(fr, a, st)
        try:
            self.stmt(f["body"], st)
        finally:
            self.pop(fr, st)
        if st.dead == "ret": st.dead = None
        st.live = st.live[:nl] + [x for x in st.live[nl:] if x[1] == "throw"]
        if not fr.rets: return ZERO
        res = fr.rets[-1][1]
        for g, v, lp in reversed(fr.rets[:-1]):
            res = self.pite(and_(*g), v, res) if not lp else self.fresh("ret")
        return res

    def methodcall(self, e, st, f, want_lv):
        line = e["line"]
        if e["k"] == "opcall":
            if e["op"] == "=" and (f is None or "body" not in f):
                return self.assign(e["args"][0], e["args"][1], e, st)
            if f is None or "body" not in f: return self.libop(e, st, want_lv)
            this = self.lval(e["args"][0], st)
            args = self.bindargs(f, e["args"][1:], st)
            r = self.inline(f, args, this, st, line, want_lv)
            return r if r is not None else self.fresh("rec")
        cls = e.get("cls", "")
        if cls in self.p.records:
            this = self.objlv(e, st)
            g = f
            if e.get("virt"):
                d = self.dyn.get(this)
                if d is None and this.op == "deref": d = self.dyn.get(this)
                if d is not None:
                    g = self.p.method(d, e["mn"], len(e["args"]))
                    if g is None: g = None
                elif not self.stack or this is not self.stack[0].this:
                    g = None
                    r = self.p.records.get(cls)
            if g is not None and "body" in g and g["q"] not in self.noinline:
                args = self.bindargs(g, e["args"], st)
                r = self.inline(g, args, this, st, line, want_lv)
                if r is not None: return r
            vs = [self.argval(a, st) for a in e["args"]]
            c = self.effect(st, "call", line, name=e["fn"], args=[mk("ptr", this, ZERO)] + vs, extra=e)
            if e["mn"] in self.models:
                r = self.models[e["mn"]](self, st, c.args, line)
                if r is not None:
                    c.val = r
                    return r
            c.val = self.extres(e, st)
            return c.val
        return self.libmethod(e, st, want_lv)

    def argval(self, a, st):
        """value of an argument whose callee is unknown; lvalue record arguments are passed by their location"""
        if a is None: return ZERO
        if a["tc"] == "rec" and a["k"] in ("ref", "mem", "idx", "un"):
            lv = self.lval(a, st)
            if isvec(a["t"]): return self.rd(st, lv, a["t"], a["line"])
            return mk("ptr", lv, ZERO)
        return self.val(a, st)

    def extres(self, e, st):
        tc = e["tc"]
        if tc == "void": return ZERO
        if tc == "ptr":
            self.uid += 1
            return mk("ptr", mk("deref", mk("opq", "%s@%d" % ((e.get("mn") or "call"), self.uid))), ZERO)
        t = strip(e["t"])
        if t in self.p.records:
            return mk("opq", "%s@%d" % (e.get("mn") or "call", self._n()))
        if isvec(t): return mk("vec", mk("region", mk("obj", "ret%d" % self._n())))
        if eigdims(t): return self.freshm("ext")
        return mk("opq", "%s@%d" % (e.get("mn") or "call", self._n()))

    ALLOC = {"boost::alignment::aligned_alloc": 1, "aligned_alloc": 1, "std::aligned_alloc": 1, "malloc": 0, "std::malloc": 0}
    FREE = {"boost::alignment::aligned_free", "free", "std::free"}

    def extern(self, e, st, base, want_lv):
        line = e["line"]
        fn = base
        if fn in IDENT:
            lv = self.lval(e["args"][0], st)
            return mk("lv", lv) if want_lv else self.rd(st, lv, e["args"][0]["t"], line)
        if fn == "std::getline" and self.streams and len(e["args"]) >= 2:
            sv, lv = self.lval(e["args"][0], st), self.lval(e["args"][1], st)
            q = mk("nz", self.fresh("rf"))
            self.effect(st, "line", line, base=sv, val=q, args=[mk("ptr", lv, ZERO)], extra=e)
            self.wr(st, lv, mk("out", "getline", self._n()), e["args"][1]["t"], line)
            self.wrcell(st, mk("fld", sv, "$fail"), or_(self.failed(sv, st), q), line)
            return mk("stream", sv)
        if fn in ("std::max", "std::min"):
            a, b = [self.val(x, st) for x in e["args"][:2]]
            na, nb = numval(a), numval(b)
            if na is not None and nb is not None: return a if (na >= nb) == fn.endswith("max") else b
            if a.id > b.id: a, b = b, a
            return mk("call", fn, a, b)
        if fn in self.ALLOC:
            vs = [self.val(a, st) for a in e["args"]]
            self.uid += 1
            b = mk("heap", "%s@%s:%d" % (fn.split("::")[-1], self.stack[-1].f["short"], self.uid))
            self.effect(st, "alloc", line, base=b, val=vs[self.ALLOC[fn]], name=fn.split("::")[-1])
            return mk("ptr", b, ZERO)
        if fn in self.FREE:
            v = self.val(e["args"][0], st)
            self.effect(st, "free", line, val=v, name=fn.split("::")[-1])
            return ZERO
        if fn in NORETURN:
            for a in e["args"]: self.val(a, st)
            if fn == "__cxa_throw": self.unwind(st, line)      # the others end the program without running destructors
            self.effect(st, "throw", line, name=fn)
            st.dead = "throw"
            return ZERO
        if fn in PURE:
            nm = fn.replace("std::", "").replace("fabs", "abs")
            if nm == "abs" and len(e["args"]) == 1:
                v = toval(self.val(e["args"][0], st))
                if v.op not in COND and not is_mat(v) and v.op not in ("ptr", "null"): return absv(v)
                return mk("call", nm, v)
            return mk("call", nm, *[toval(self.val(a, st)) for a in e["args"]])
        if fn.startswith("std::swap"):
            l1, l2 = self.lval(e["args"][0], st), self.lval(e["args"][1], st)
            t = e["args"][0]["t"]
            a, b = self.rd(st, l1, t, line), self.rd(st, l2, t, line)
            self.wr(st, l1, b, t, line); self.wr(st, l2, a, t, line)
            return ZERO
        if fn in ("std::fill", "std::fill_n", "std::copy", "std::copy_n", "memcpy", "std::memcpy", "memset"):
            vs = [self.val(a, st) for a in e["args"]]
            if fn in ("std::fill", "std::copy") and vs[0].op == "ptr" and vs[1].op == "ptr" and vs[0].a[0] is vs[1].a[0]:
                n = sub(vs[1].a[1], vs[0].a[1])
                return self.bulk(fn, n, vs, e, st)
            if fn in ("std::fill_n", "std::copy_n"):
                return self.bulk(fn, vs[1], vs, e, st)
            if fn.endswith("memcpy"):
                n = div(vs[2], mk("sizeof", "double"))
                if any(x[1] < 0 for _, s, _ in items(n) for x in s): n = div(vs[2], mk("sizeof", "int"))
                return self.bulk("memcpy", n, [vs[1], None, vs[0]], e, st)
        if fn in ("std::max_element", "std::min_element") and len([a for a in e["args"] if a is not None]) == 2:
            a, b = [self.val(x, st) for x in e["args"][:2]]
            if a.op == "ptr" and b.op == "ptr" and a.a[0] is b.a[0]:
                n = sub(b.a[1], a.a[1])
                self.bulk("read", n, [a], e, st)
                pos = mk("sym", "pos%d" % self._n())
                self.bound[pos] = n
                return mk("ptr", a.a[0], add(a.a[1], pos))
        if e.get("mn") == "Zero" and fn.startswith("Eigen::"): return ZERO
        if e.get("mn") == "Identity" and fn.startswith("Eigen::"): return mk("mident")
        # generic external call
        vs = []
        for a in e["args"]:
            if a is None: continue
            vs.append(self.argval(a, st))
        if fn == "__builtin_expect": return vs[0]
        if fn == "std::make_pair" and len(vs) == 2 and fn not in self.models: return mk("call", "pair", *vs)
        c = self.effect(st, "call", line, name=fn, args=vs, extra=e)
        if fn in self.models:
            r = self.models[fn](self, st, vs, line)
            if r is not None:
                c.val = r
                return r
        self.havocargs(e["args"], vs, st, fn, line)
        if "*" in self.models:
            r = self.models["*"](self, st, e, vs)
            if r is not None:
                c.val = r
                return r
        if want_lv and e["t"].endswith("&"): pass
        if fn.startswith("Eigen::"): return self.freshm("eig")
        c.val = self.extres(e, st)
        return c.val

    def elemtype(self, a):
        """the scalar type a pointer or iterator argument points to"""
        while a is not None:
            t = a.get("t") or ""
            s = strip(pointee(t) or "")
            if not s:
                m = re.search(r"__normal_iterator<(?:const )?([a-z ]+?)(?: const)? ?\*", t)
                s = m.group(1) if m else ""
            if s in ("int", "unsigned int", "long", "unsigned long", "bool", "char", "float", "double"): return s
            a = a.get("e") if a["k"] == "cast" else None
        return "double"

    def bulk(self, fn, n, vs, e, st):
        """std::fill/copy as the loop they are"""
        self.uid += 1
        L = Loop()
        L.uid, L.T, L.n, L.dir, L.line, L.fn, L.brk, L.known, L.lo, L.kind = self.uid, mk("sym", "t%d" % self.uid), n, 1, e["line"], None, False, True, ZERO, "bulk"
        L.cond = None
        self.ctx.append(L)
        try:
            if fn == "read":
                dst = vs[0]
                self.rd(st, self.target(self.padd(dst, L.T), strip(pointee(e["args"][0]["t"]) or "double")), strip(pointee(e["args"][0]["t"]) or "double"), e["line"])
            elif "fill" in fn:
                dst, v = vs[0], vs[2]
                y = self.elemtype(e["args"][0])
                self.wr(st, self.target(self.padd(dst, L.T), y), v, y, e["line"])
            else:
                src, dst = vs[0], vs[2]
                k = (1, 0) if fn == "memcpy" else (0, 2)
                x = self.elemtype(e["args"][k[0]])
                y = self.elemtype(e["args"][k[1]]) if len(e["args"]) > k[1] else x
                self.wr(st, self.target(self.padd(dst, L.T), y), self.rd(st, self.target(self.padd(src, L.T), x), x, e["line"]), y, e["line"])
        finally:
            self.ctx.pop()
        if fn == "read": return
        if dst.op == "ptr": st.writes.pop(dst.a[0], None)
        return self.padd(dst, n)

    def havocargs(self, args, vs, st, fn, line):
        for a, v in zip([x for x in args if x is not None], vs):
            if v.op == "ptr" and v.a[0].op == "cell" and a["t"].startswith("const ") and not (pointee(a["t"]) or "*").rstrip().endswith("*"): continue
            if v.op == "ptr" and v.a[0].op == "cell" and a["k"] in ("un", "cast"):
                x = a
                while x["k"] == "cast": x = x["e"]
                pt = strip(pointee(a["t"]) or pointee(x["t"]) or "")
                self.uid += 1
                nm = mk("out", fn, self.uid)
                pt2 = strip(pointee(x["t"]) or "")
                nv = mk("ptr", mk("deref", nm), ZERO) if pt2.endswith("*") else nm
                self.wrcell(st, v.a[0].a[0], nv, line)
            elif v.op == "ptr" and v.a[0].op in ("obj", "fld") and a["k"] == "un" and a["op"] == "&":
                rn = strip(pointee(a["t"]) or "")
                if rn in self.p.records and not a["t"].startswith("const "):
                    self.copyrec(st, v.a[0], mk("out", fn, self._n()), rn, line)
            elif v.op in ("ptr", "vec"):
                b = v.a[0]
                if not (pointee(a["t"]) and a["t"].startswith("const ")):
                    st.writes.pop(b, None)
                    for m in self.mods: m[1].add(b)

    # ---------------- library operators and methods
    def assign(self, le, re_, e, st):
        t = le["t"]
        v = self.val(re_, st)
        lv = self.lval(le, st)
        if strip(t) in self.p.records:
            if v.op == "ptr": v = mk("rec", self.target(v, t))
            self.copyrec(st, lv, v, strip(t), e["line"])
            return mk("lv", lv)
        if v.op == "vec" and re_["k"] in ("ref", "mem") and e.get("key", "").find("const") >= 0 and "&&" not in e.get("key", ""):
            r = mk("region", mk("obj", "vcopy%d" % self._n()))
            st.cells[mk("fld", r, "$size")] = self.rdcell(st, mk("fld", v.a[0], "$size"), "unsigned long")
            self.effect(st, "veccopy", e["line"], base=r, val=v)
            v = mk("vec", r)
        if strip(t).startswith("Eigen::") and not is_mat(v) and v is not ZERO: v = self.freshm("asg")
        self.wr(st, lv, v, t, e["line"])
        return v

    def libop(self, e, st, want_lv=False):
        op, args, line = e["op"], e["args"], e["line"]
        a0 = args[0]
        t0 = strip(a0["t"])
        if op == "[]" :
            if isvec(t0) or t0.startswith(("std::__cxx11::basic_string", "std::basic_string<")):
                if isvec(t0):
                    v = self.val(a0, st)
                    i = self.val(args[1], st)
                    et = re.match(r"^std::(?:vector|array)<(.*)", t0).group(1)
                    s = 1
                    reg = v.a[0] if v.op in ("vec", "ptr") else mk("deref", v)
                    if v.op == "ite": reg = mk("ite", v.a[0], v.a[1].a[0], v.a[2].a[0])
                    d = eigdims(et)
                    lv = mk("elem", reg, scale(i, stride(strip(e["t"]))))
                    return mk("lv", lv) if want_lv else self.rd(st, lv, e["t"], line)
                self.val(a0, st)
                i = self.val(args[1], st)
                return mk("call", "str[]", self.val(a0, st), i)
            v0 = self.val(a0, st)
            i = self.val(args[1], st)
            if v0.op == "ptr":
                lv = self.target(self.padd(v0, scale(i, stride(strip(e["t"])))), e["t"])
                return mk("lv", lv) if want_lv else self.rd(st, lv, e["t"], line)
            if t0.startswith("Eigen::") :
                m = self.lval(a0, st)
                if m.op == "elem": self.lay(m.a[0], t0, line)
                lv = mk("subm", m, i, ZERO)
                return mk("lv", lv) if want_lv else self.rd(st, lv, e["t"], line)
            return mk("call", "[]", v0, i)
        if op == "()" and t0.startswith("Eigen::"):
            m = self.lval(a0, st)
            idx = [self.val(x, st) for x in args[1:]]
            if m.op == "elem": self.lay(m.a[0], t0, line)
            lv = mk("subm", m, idx[0], idx[1] if len(idx) > 1 else ZERO)
            return mk("lv", lv) if want_lv else self.rd(st, lv, e["t"], line)
        if op == "=":
            return self.assign(a0, args[1], e, st)
        if op in ("+=", "-=", "*=", "/="):
            rv = self.val(args[1], st)
            lv = self.lval(a0, st)
            tt = a0["t"]
            if a0["k"] in ("call",) : tt = a0["t"]
            old = self.rd(st, lv, self.eigt(lv, tt), line)
            if old.op == "ptr": new = self.padd(old, scale(rv if op == "+=" else neg(rv), stride(pointee(t0))))
            elif t0.startswith("std::__cxx11"): new = mk("call", "strcat", old, rv)
            else: new = self.arith(op[0], old, rv, "float")
            self.wr(st, lv, new, self.eigt(lv, tt), line)
            return mk("lv", lv) if want_lv else new
        if op in ("<<", ">>") and ("ostream" in e["t"] or "istream" in e["t"] or "stream" in t0 or "IStream" in t0):
            if op == ">>":
                src = self.val(a0, st) if a0["k"] in ("opcall", "call") else None
                lv = self.lval(args[1], st)
                if self.streams:
                    sv = src.a[0] if src is not None and src.op == "stream" and isinstance(src.a[0], T) else self.lval(a0, st)
                    q = mk("nz", self.fresh("rf"))
                    self.effect(st, "extract", line, base=sv, val=q, args=[mk("ptr", lv, ZERO)], extra=e)
                    self.wr(st, lv, mk("out", "istream>>", self._n()), args[1]["t"], line)
                    self.wrcell(st, mk("fld", sv, "$fail"), or_(self.failed(sv, st), q), line)
                    return mk("stream", sv)
                self.effect(st, "call", line, name="istream>>", args=[mk("ptr", lv, ZERO)], extra=e)
                self.wr(st, lv, mk("out", "istream>>", self._n()), args[1]["t"], line)
                return mk("stream", 0)
            for a in args:
                if a["k"] in ("ref",) and "stream" in a["t"]: continue
                if a["tc"] == "rec" and a["k"] == "ref" and a.get("dk") == "func": continue
                if a.get("dk") == "func" or a["k"] == "other": continue
                self.val(a, st)
            return mk("stream", 0)
        if op == "*" and len(args) == 1:
            v = self.val(a0, st)
            lv = self.target(v, e["t"])
            return mk("lv", lv) if want_lv else self.rd(st, lv, e["t"], line)
        if op == "->":
            v = self.val(a0, st)
            return v
        if op in ("++", "--"):
            lv = self.lval(a0, st)
            old = self.rd(st, lv, a0["t"], line)
            s = stride(pointee(t0))
            new = self.padd(old, num(s if op == "++" else -s)) if old.op == "ptr" else mk("call", "list.next" if op == "++" else "list.prev", old) if "_List_" in strip(a0["t"]) else self.fresh("it")
            self.wr(st, lv, new, a0["t"], line)
            post = len(args) > 1
            return old if post else (mk("lv", lv) if want_lv else new)
        if op == "!" and len(args) == 1 and self.streams and "stream" in t0 + a0.get("dt", "") or op == "!" and self.streams and "basic_ios" in t0:
            v = self.val(a0, st) if a0["k"] in ("opcall", "call") else None
            return self.failed(v.a[0] if v is not None and v.op == "stream" else self.lval(a0, st), st)
        if len(args) == 1:
            v = self.val(a0, st)
            if op == "-": return neg(v)
            return mk("call", op, v)
        a = self.val(a0, st)
        b = self.val(args[1], st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if a.op in ("str",) or b.op in ("str",) or "basic_string" in t0 or "basic_string" in strip(args[1]["t"]):
                if a.op == "ite" and a.a[1].op == "str" or b.op == "ite": pass
                r = eq(a, b)
                return r if op == "==" else not_(r)
            if a.op == "ptr" and b.op == "ptr": return cmp(op, a, b)
            return cmp(op, a, b, False) if a.op in ("poly", "load", "sym") else (eq(a, b) if op == "==" else not_(eq(a, b)))
        if op in ("+", "-") and (a.op in ("ptr", "vec")):
            if b.op == "ptr" and op == "-":
                return sub(a.a[1], b.a[1]) if a.op == "ptr" and a.a[0] is b.a[0] else mk("call", "ptrdiff", a, b)
            return self.padd(a, scale(b if op == "+" else neg(b), stride(pointee(t0))))
        if op in ("+", "-", "*", "/") and ("Eigen::" in t0 or "Eigen::" in strip(args[1]["t"])):
            return self.arith(op, a, b, "float")
        if op == "+": return mk("call", "strcat", a, b)
        self.note("operator " + op + " on " + t0, line)
        return mk("call", "op" + op, a, b)

    def failed(self, sv, st): return tocond(self.rdcell(st, mk("fld", sv, "$fail"), "bool"))

    def eigt(self, lv, t):
        """type of the matrix behind an Eigen assignable (NoAlias and the like)"""
        s = strip(t)
        if s.startswith("Eigen::NoAlias<"):
            return s[len("Eigen::NoAlias<"):].split(">, Eigen::MatrixBase")[0] + ">"
        return t

    def libmethod(self, e, st, want_lv):
        mn, cls, line = e.get("mn", "?"), e.get("cls", ""), e["line"]
        args = e["args"]
        o = e.get("obj")
        ot = strip(o["t"]) if o else ""
        if "Eigen::" in cls and "allocator" not in cls:
            if mn in ("noalias", "matrix", "array", "derived", "eval", "const_cast_derived", "lazyAssign"):
                if mn in ("noalias", "derived") or want_lv:
                    lv = self.lval(o, st)
                    self.lty.setdefault(lv, o["t"])
                    return mk("lv", lv) if want_lv else self.rd(st, lv, o["t"], line)
                return self.val(o, st)
            if mn == "inverse": return minv(self.val(o, st))
            if mn == "transpose": return mk("mtr", self.val(o, st))
            if mn in ("setZero", "setOnes", "setIdentity", "fill", "setConstant"):
                lv = self.lval(o, st)
                v = ZERO if mn == "setZero" else (mk("mident") if mn == "setIdentity" else self.freshm(mn))
                for a in args: self.val(a, st)
                self.wr(st, lv, v, self.eigt(lv, o["t"]), line)
                return v
            if mn in ("operator()", "coeff", "coeffRef"):
                m = self.lval(o, st)
                idx = [self.val(x, st) for x in args]
                if m.op == "elem": self.lay(m.a[0], strip(o["t"]), line)
                lv = mk("subm", m, idx[0], idx[1] if len(idx) > 1 else ZERO)
                return mk("lv", lv) if want_lv else self.rd(st, lv, e["t"], line)
            if mn == "data":
                lv = self.lval(o, st)
                return mk("ptr", lv.a[0], lv.a[1]) if lv.op == "elem" else mk("ptr", mk("region", lv), ZERO)
            if mn in ("rows", "cols", "size", "norm", "sum", "maxCoeff", "minCoeff", "squaredNorm", "determinant"):
                v = self.val(o, st)
                return mk("call", "eig." + mn, v)
            if o is not None: v = self.val(o, st)
            vs = [self.val(a, st) for a in args]
            return mk("mcall", mn, *([v] + vs if o is not None else vs))
        if isvec(cls):
            lv = None
            v = self.val(o, st) if o["k"] in ("call", "opcall") and not o["t"].endswith("&") else None
            if v is None:
                lv = self.objlv(e, st) if e.get("arrow") else self.lval(o, st)
                v = self.rd(st, lv, cls, line)
            r = v.a[0] if v.op in ("vec", "ptr") else mk("deref", v)
            if v.op == "ite" and all(x.op == "vec" for x in v.a[1:]): r = mk("ite", v.a[0], v.a[1].a[0], v.a[2].a[0])
            sz = mk("fld", r, "$size")
            if mn == "operator=":
                v2 = self.val(args[0], st)
                if "&&" not in e.get("key", "") and v2.op == "vec":
                    r2 = mk("region", mk("obj", "vcopy%d" % self._n()))
                    st.cells[mk("fld", r2, "$size")] = self.rdcell(st, mk("fld", v2.a[0], "$size"), "unsigned long")
                    self.effect(st, "veccopy", line, base=r2, val=v2)
                    v2 = mk("vec", r2)
                if lv is not None: self.wr(st, lv, v2, cls, line)
                return mk("lv", lv) if want_lv and lv is not None else v2
            if mn == "size": return self.rdcell(st, sz, "unsigned long")
            if mn in ("begin", "cbegin", "data"): return mk("ptr", r, ZERO)
            if mn in ("end", "cend"): return mk("ptr", r, self.rdcell(st, sz, "unsigned long"))
            if mn in ("operator[]", "at"):
                i = self.val(args[0], st)
                l2 = mk("elem", r, scale(i, stride(strip(e["t"]))))
                return mk("lv", l2) if want_lv else self.rd(st, l2, e["t"], line)
            if mn in ("back", "front"):
                i = ZERO if mn == "front" else add(self.rdcell(st, sz, "unsigned long"), num(-1))
                l2 = mk("elem", r, i)
                return mk("lv", l2) if want_lv else self.rd(st, l2, e["t"], line)
            if mn in ("resize", "assign", "reserve"):
                vs = [self.val(a, st) for a in args if a and not a["t"].startswith("std::allocator")]
                if mn == "assign" and len(vs) == 2 and vs[0].op == "ptr" and vs[1].op == "ptr":
                    n = sub(vs[1].a[1], vs[0].a[1]) if vs[0].a[0] is vs[1].a[0] else self.fresh("sz")
                    self.wrcell(st, sz, n, line)
                    self.effect(st, "alloc", line, base=r, val=n, name="vector.assign", extra=cls)
                    st.writes.pop(r, None)
                    if vs[0].a[0] is vs[1].a[0]: self.bulk("copy", n, [vs[0], None, mk("ptr", r, ZERO)], e, st)
                    else: self.effect(st, "fill", line, base=r, val=self.fresh())
                    return ZERO
                if mn != "reserve":
                    self.wrcell(st, sz, vs[0], line)
                    self.effect(st, "alloc", line, base=r, val=vs[0], name="vector." + mn, extra=cls)
                    if mn == "assign": self.effect(st, "fill", line, base=r, val=vs[1] if len(vs) > 1 else self.fresh())
                    elif True: self.effect(st, "resize", line, base=r, val=vs[1] if len(vs) > 1 else ZERO)
                    st.writes.pop(r, None)
                return ZERO
            if mn in ("push_back", "emplace_back"):
                if mn == "emplace_back" and len(args) == 2 and re.match(r"std::(?:__cxx11::)?(?:vector|array)<std::pair<", cls): v = mk("call", "pair", *[self.argval(a, st) for a in args])
                else: v = self.argval(args[0], st) if args else ZERO
                old = self.rdcell(st, sz, "unsigned long")
                self.effect(st, "push", line, base=r, off=old, val=v)
                for m in self.mods: m[1].add(r)
                self.wrcell(st, sz, add(old, ONE), line)
                return ZERO
            if mn == "empty":
                return cmp("==", self.rdcell(st, sz, "unsigned long"), ZERO)
            if mn == "clear":
                self.wrcell(st, sz, ZERO, line)
                st.writes.pop(r, None)
                return ZERO
            if mn == "fill" and len(args) == 1 and (numval(self.rdcell(st, sz, "unsigned long")) or 99) <= 16:
                x = self.argval(args[0], st)
                for k in range(int(numval(self.rdcell(st, sz, "unsigned long")))):
                    self.wr(st, mk("elem", r, num(k)), x, re.sub(r"^std::array<(.*), \d+(?:UL)?>$", r"\1", cls), line)
                return ZERO
            if mn in ("swap", "pop_back", "insert", "erase", "shrink_to_fit", "fill"):
                vs = [self.argval(a, st) for a in args]
                self.effect(st, "call", line, name="vector." + mn, args=[mk("vec", r)] + vs, extra=e)
                if mn not in ("shrink_to_fit", "fill"): self.wrcell(st, sz, self.fresh("sz"), line)
                st.writes.pop(r, None)
                for m in self.mods: m[1].add(r)
                return self.fresh("it")
        if cls.startswith(("std::__cxx11::basic_string", "std::basic_string<")):
            v = self.val(o, st)
            vs = [self.val(a, st) for a in args if a]
            if mn in ("c_str", "data"): return mk("call", "c_str", v)
            if mn in ("size", "length"):
                return num(len(v.a[0])) if v.op == "str" else mk("call", "strlen", v)
            return mk("call", "str." + mn, v, *vs)
        if "_Bit_reference" in cls and o is not None and mn == "operator bool":
            return tocond(self.rd(st, self.lval(o, st), "bool", line))
        if self.streams and o is not None and mn in ("operator bool", "operator!", "fail", "good", "bad", "eof", "clear", "operator>>") and ("basic_ios" in cls or "stream" in cls):
            v = self.val(o, st) if o["k"] in ("opcall", "call") else None
            sv = v.a[0] if v is not None and v.op == "stream" and isinstance(v.a[0], T) else self.objlv(e, st) if e.get("arrow") else self.lval(o, st)
            if mn in ("fail", "operator!"): return self.failed(sv, st)
            if mn == "operator bool": return not_(self.failed(sv, st))
            if mn == "good": return and_(not_(self.failed(sv, st)), mk("nz", self.fresh("good")))
            if mn == "clear": self.wrcell(st, mk("fld", sv, "$fail"), FALSE, line); return ZERO
            return mk("nz", self.fresh(mn))
        if cls.startswith("std::set<") and o is not None and mn in ("insert", "emplace", "size", "begin", "end", "cbegin", "cend", "empty", "clear"):
            lv = self.objlv(e, st) if e.get("arrow") else self.lval(o, st)
            vs = [self.argval(a, st) for a in args if a is not None]
            if mn in ("insert", "emplace", "clear"):
                self.effect(st, "insert" if mn != "clear" else "call", line, base=lv, val=vs[0] if len(vs) == 1 else None, args=[mk("ptr", lv, ZERO)] + vs, name="set." + mn, extra=e)
                return mk("call", "set.it", lv)
            if mn == "size": return mk("call", "set.size", lv)
            if mn == "empty": return cmp("==", mk("call", "set.size", lv), ZERO)
            return mk("call", "set." + mn.lstrip("c"), lv)
        if cls.startswith(("std::list<", "std::__cxx11::list<")) and o is not None and mn in ("push_back", "emplace_back", "front", "back", "size", "begin", "end", "cbegin", "cend", "empty", "erase", "remove"):
            lv = self.objlv(e, st) if e.get("arrow") else self.lval(o, st)
            vs = [self.argval(a, st) for a in args if a is not None]
            if mn in ("push_back", "emplace_back", "erase", "remove"):
                self.effect(st, "list", line, base=lv, val=vs[0] if len(vs) == 1 else None, args=[mk("ptr", lv, ZERO)] + vs, name=mn, extra=e)
                return mk("call", "list.it", lv)
            if mn == "empty": return cmp("==", mk("call", "list.size", lv), ZERO)
            return mk("call", "list." + (mn[1:] if mn in ("cbegin", "cend") else mn), lv)
        # generic method of a library class
        ov = None
        if o is not None:
            try:
                ov = mk("ptr", self.objlv(e, st), ZERO)
            except KeyError:
                ov = self.val(o, st)
        vs = [self.argval(a, st) for a in args if a is not None]
        self.effect(st, "call", line, name=e.get("fn", mn), args=([ov] if ov is not None else []) + vs, extra=e)
        self.havocargs(args, vs, st, mn, line)
        if mn == "allocate" and "allocator" in cls:
            self.uid += 1
            b = mk("heap", "allocate@%s:%d" % (self.stack[-1].f["short"], self.uid))
            self.effect(st, "alloc", line, base=b, val=scale(vs[0], stride(pointee(e["t"]))), name="allocator")
            return mk("ptr", b, ZERO)
        if mn == "deallocate" and "allocator" in cls:
            self.effect(st, "free", line, val=vs[0], name="allocator")
            return ZERO
        return self.extres(e, st)

    # ---------------- statements
    def stmt(self, s, st):
        if s is None or st.dead: return
        self.steps += 1
        if self.steps > self.budget: raise TooBig()
        getattr(self, "s_" + s["k"], self.s_unknown)(s, st)

    def s_unknown(self, s, st):
        self.note("statement " + s["k"] + " " + str(s.get("cls")), s.get("line"))

    def s_null(self, s, st): pass

    def s_blk(self, s, st):
        fr = self.stack[-1]
        n = len(fr.autos)
        for x in s["s"]:
            if st.dead: break
            self.stmt(x, st)
        if len(fr.autos) > n:
            if not st.dead: self.endscope(st, fr.autos[n:], s.get("line", fr.f["line"]))
            del fr.autos[n:]

    def s_label(self, s, st): self.stmt(s["s"], st)
    def s_expr(self, s, st): self.val(s["e"], st)

    def s_decl(self, s, st):
        for v in s["v"]: self.declare(v, st)

    def declare(self, v, st):
        fr = self.stack[-1]
        if v.get("static"):
            loc = mk("obj", "::static." + v["n"])
            fr.env[v["id"]] = loc
            return
        if v["tc"] == "ref":
            if v.get("init"):
                fr.env[v["id"]] = self.lval(v["init"], st)
            return
        loc = mk("obj", "%s#%d" % (v["n"], fr.uid))
        # distinct declarations of one name in one function
        if fr.env.get(v["id"]) is not None: loc = fr.env[v["id"]]
        elif any(x is loc for k, x in fr.env.items() if k != v["id"]):
            loc = mk("obj", "%s#%d.%d" % (v["n"], fr.uid, v["id"]))
        fr.env[v["id"]] = loc
        self.lty[loc] = v["t"]
        for d in self.decls: d.add(loc)
        self.declw[loc] = tuple(f for f in self.ctx if isinstance(f, (Omp, Loop)))
        st.writes.pop(mk("region", loc), None)
        t = strip(v["t"])
        if t in self.p.records:
            self.dyn[loc] = t
            for f in self.fields(t): 
                st.cells.pop(mk("fld", loc, f["n"]), None)
            if v.get("init"): self.construct(v["init"], loc, st, v["line"])
            else: self.definit(t, loc, st, v["line"], set())
            if not self.dtorof(t)[1] and not any(x is loc for x, _ in fr.autos): fr.autos.append((loc, t))
            return
        if v["tc"] == "array":
            st.cells[loc] = mk("ptr", mk("region", loc), ZERO)
            if v.get("init"):
                x = self.val(v["init"], st)
                if x.op == "vec":
                    st.writes[mk("region", loc)] = st.writes.get(x.a[0], [])
                elif x.op == "str": pass
            return
        if v.get("init") is None:
            val = mk("uninit", loc) if v["tc"] != "ptr" else mk("ptr", mk("uninitp", loc), ZERO)
            self.wrcell(st, loc, val, v["line"], decl=True)
            return
        x = self.val(v["init"], st)
        if x is None: x = self.fresh("n")
        if x.op == "lv": x = self.rd(st, x.a[0], v["t"], v["line"])
        if v["tc"] == "ptr" and x is ZERO: x = NULLP
        if v["tc"] == "bool": x = tocond(x) if x.op not in ("uninit",) else x
        if x.op in COND and v["tc"] == "int": x = mk("b2i", x) if x not in (TRUE, FALSE) else toval(x)
        self.wrcell(st, loc, x, v["line"], decl=True)

    def s_if(self, s, st):
        if s.get("init"): self.stmt(s["init"], st)
        if s.get("cvar"): self.declare(s["cvar"], st)
        c = self.cond(s["c"], st)
        if st.dead: return
        if c is TRUE: return self.stmt(s["a"], st)
        if c is FALSE:
            if s.get("b"): self.stmt(s["b"], st)
            return
        s1, s2 = st.copy(), st.copy()
        self.guarded(c, s["line"], lambda: self.stmt(s["a"], s1))
        if s.get("b"): self.guarded(not_(c), s["line"], lambda: self.stmt(s["b"], s2))
        self.merge(st, c, s1, s2)

    def merge(self, st, c, s1, s2):
        """join of the two arms of a branch into st"""
        n = len(st.live)
        if s1.dead and s2.dead:
            st.cells, st.writes = s1.cells, s1.writes
            st.dead = s1.dead if s1.dead == s2.dead else ("throw" if "throw" not in (s1.dead, s2.dead) else (s1.dead if s2.dead == "throw" else s2.dead))
            return
        if s1.dead or s2.dead:
            a, cc, why = (s2, not_(c), s1.dead) if s1.dead else (s1, c, s2.dead)
            st.cells, st.writes, st.dead = a.cells, a.writes, None
            st.live = a.live + [(cc, why)]
            return
        l1, l2 = s1.live[n:], s2.live[n:]
        live = list(st.live)
        if l1 or l2:
            kinds = {k for _, k in l1 + l2}
            k = "throw" if kinds == {"throw"} else "ret" if "ret" in kinds else kinds.pop()
            x = or_(and_(c, *[g for g, _ in l1]), and_(not_(c), *[g for g, _ in l2]))
            live.append((x, k))
        st.live = live
        if s1.cells is not s2.cells:
            out = {}
            for k, v1 in s1.cells.items():
                v2 = s2.cells.get(k)
                if v2 is v1: out[k] = v1
                elif v2 is None:
                    if k in st.cells: v2 = st.cells[k]; out[k] = v1 if v1 is v2 else self.jn(c, v1, v2)
                    else:
                        # first touched in one arm: if merely read, keep; if written, join with the default
                        d = self.deflt(k, self.lty.get(k) or ("x *" if v1.op in ("ptr", "null") else None))
                        out[k] = v1 if d is v1 else self.jn(c, v1, d)
                else: out[k] = self.jn(c, v1, v2)
            for k, v2 in s2.cells.items():
                if k not in out:
                    d = self.deflt(k, self.lty.get(k) or ("x *" if v2.op in ("ptr", "null") else None))
                    out[k] = v2 if d is v2 else self.jn(c, d, v2)
            st.cells = out
        w = {}
        for b in set(s1.writes) | set(s2.writes):
            w1, w2 = s1.writes.get(b, []), s2.writes.get(b, [])
            if w1 == w2: w[b] = w1
            else:
                # same offset written in both arms
                if w1 and w2 and w1[-1][0] is w2[-1][0] and w1[-1][2] == "w" == w2[-1][2]:
                    w[b] = [(w1[-1][0], self.jn(c, w1[-1][1], w2[-1][1]), "w")]
                elif self.localarr(b) and onearm(w1, w2):
                    w[b] = list(w2 if len(w2) < len(w1) else w1)
                    for o, v, k in (w1 if len(w2) < len(w1) else w2)[len(w[b]):]:
                        old = self.logged(b, w[b], o) if w[b] else None
                        if old is None: old = load(b, o)
                        w[b].append((o, self.jn(c, v, old) if len(w2) < len(w1) else self.jn(c, old, v), "w"))
                else: w[b] = [(ZERO, ZERO, "range")] if (b.op == "region") else []
                if w[b] and w[b][0][2] == "range": w[b] = [(([], ZERO), ZERO, "range")]
        st.writes = w
        st.dead = None

    def jn(self, c, a, b):
        if a is b: return a
        if a.op in ("ptr", "null") or b.op in ("ptr", "null"): return self.pite(c, a, b)
        if a.op in ("vec", "rec", "stream", "lambda", "lv") or b.op in ("vec", "rec", "stream", "lambda", "lv"): return mk("ite", c, a, b)
        return ite(c, a, b)

    def s_ret(self, s, st):
        fr = self.stack[-1]
        if s.get("e"):
            if fr.f["rtc"] == "ref":
                v = mk("lv", self.lval(s["e"], st))
            else:
                v = self.val(s["e"], st)
                if v.op == "lv": v = self.rd(st, v.a[0], s["e"]["t"], s["line"])
                if fr.f["rtc"] == "ptr" and v is ZERO: v = NULLP
                if v.op == "rec":
                    # snapshot of a returned structure
                    pass
        else: v = ZERO
        if st.dead: return
        inner = self.ctx[fr.depth:]
        g = [x.c for x in inner if isinstance(x, If)] + [c for c, k in st.live if True][0:0]
        g += [c for c, k in st.live if k in ("ret",)]
        lp = any(isinstance(x, Loop) for x in inner)
        fr.rets.append((g, v, lp))
        self.effect(st, "ret", s["line"], val=v)
        keep = v.a[0] if v.op in ("rec", "lv") else None
        self.endscope(st, [x for x in fr.autos if x[0] is not keep], s["line"])
        st.dead = "ret"

    def s_break(self, s, st):
        fr = self.stack[-1]
        self.endscope(st, fr.autos[fr.lmark[-1][0] if fr.lmark else 0:], s.get("line", 0))
        if self.brk: self.brk[-1].append(("brk", st.copy(), [x for x in self.ctx]))
        st.dead = "brk"

    def s_continue(self, s, st):
        fr = self.stack[-1]
        self.endscope(st, fr.autos[next((m for m, k in reversed(fr.lmark) if k == "loop"), 0):], s.get("line", 0))
        for b in reversed(self.brk):
            if isinstance(b, LoopBrk):
                b.append(("cont", st.copy(), None)); break
        st.dead = "cont"

    brk = ()

    def s_switch(self, s, st):
        c = self.val(s["c"], st)
        body = s["body"]
        flat = []

        def flatten(x):
            if x is None: return
            if x["k"] == "case":
                flat.append(("label", x["e"])); flatten(x["s"])
            elif x["k"] == "default":
                flat.append(("default",)); flatten(x["s"])
            else: flat.append(("s", x))
        for x in (body["s"] if body["k"] == "blk" else [body]): flatten(x)
        conds, seen = [], []
        for i, x in enumerate(flat):
            if x[0] == "label":
                v = self.val(x[1], st)
                q = eq(c, v)
                seen.append(q)
        entries = []
        i = 0
        j = 0
        while i < len(flat):
            if flat[i][0] == "s": i += 1; continue
            labs = []
            k = i
            hasdef = False
            while k < len(flat) and flat[k][0] != "s":
                if flat[k][0] == "label": labs.append(seen[j]); j += 1
                else: hasdef = True
                k += 1
            q = or_(*labs) if labs else FALSE
            entries.append([q, hasdef, k]); i = k
        alll = or_(*seen) if seen else FALSE
        outs = []
        rest = TRUE
        hasd = False
        for q, d, k in entries:
            if d: q = or_(q, and_(*[not_(x) for x in seen])) if seen else TRUE; hasd = True
            outs.append((q, k))
        if not hasd: outs.append((and_(*[not_(x) for x in seen]) if seen else TRUE, None))
        states = []
        for q, k in outs:
            if q is FALSE: continue
            s1 = st.copy()
            if k is not None:
                self.brk = list(self.brk) + [[]]
                self.stack[-1].lmark.append((len(self.stack[-1].autos), "switch"))

                def run():
                    for x in flat[k:]:
                        if s1.dead: break
                        if x[0] == "s": self.stmt(x[1], s1)
                if q is TRUE: run()
                else: self.guarded(q, s["line"], run)
                bs = self.brk[-1]
                self.stack[-1].lmark.pop()
                self.brk = self.brk[:-1]
                if s1.dead == "brk": s1.dead = None
                # breaks in nested ifs
                for kind, bst, _ in bs:
                    if bst is not s1 and s1.dead is None and bst.cells != s1.cells and not (len(bs) == 1 and bst.cells.keys() == s1.cells.keys() and all(bst.cells[z] is s1.cells[z] for z in bst.cells)):
                        self.merge(s1, self.fresh("brk"), bst, s1.copy()); s1.dead = None
                s1.live = [l for l in s1.live if l[1] != "brk"]
            states.append((q, s1))
        if not states: return
        acc = states[-1][1]
        for q, s1 in reversed(states[:-1]):
            base = st.copy()
            self.merge(base, q, s1, acc)
            acc = base
        st.cells, st.writes, st.live, st.dead = acc.cells, acc.writes, acc.live, acc.dead

    def s_try(self, s, st):
        s1 = st.copy()
        self.trys += 1
        self.stack[-1].tmark.append(len(self.stack[-1].autos))
        self.stmt(s["body"], s1)
        self.stack[-1].tmark.pop()
        self.trys -= 1
        if s1.dead == "throw": s1.dead = "throw"
        acc = s1
        for h in s["h"]:
            s2 = st.copy()
            c = mk("nz", self.fresh("exc"))
            self.ctx.append(self._catch(c, s["line"]))
            if h.get("var"): 
                loc = mk("obj", "exc%d" % self._n())
                self.stack[-1].env[h["var"]["id"]] = loc
            self.effect(s2, "catch", h["body"].get("line", s["line"]) if h.get("body") else s["line"], val=c, name=h["var"]["t"] if h.get("var") else "...")
            self.stmt(h["body"], s2)
            self.ctx.pop()
            base = st.copy()
            self.merge(base, c, s2, acc)
            acc = base
        st.cells, st.writes, st.live, st.dead = acc.cells, acc.writes, acc.live, acc.dead

    def _catch(self, c, line):
        i = If(); i.c, i.line = c, line
        return i

    def s_omp(self, s, st):
        o = Omp()
        self.uid += 1
        o.d, o.line, o.fn, o.uid = s["d"], s["line"], self.stack[-1].f, self.uid
        o.cl = []
        for c in s["cl"]:
            c2 = {"c": c["c"]}
            for k in ("e", "chunk"):
                if k in c and isinstance(c[k], dict): c2[k] = self.val(c[k], st)
                elif k in c: c2[k] = c[k]
            if "kind" in c: c2["kind"] = c["kind"]
            if "op" in c: c2["op"] = c["op"]
            if "v" in c: c2["v"] = [self.lval(x, st) for x in c["v"] if x and x["k"] in ("ref", "mem")]
            if c["c"] in ("private", "firstprivate", "lastprivate"):
                for x in c2["v"]:
                    if c["c"] == "private": st.cells[x] = mk("uninit", x)
            o.cl.append(c2)
        if not s.get("body"):
            self.effect(st, "omp", s["line"], name=o.d)
            return
        self.ctx.append(o)
        try:
            self.stmt(s["body"], st)
        finally:
            self.ctx.pop()
        self.effect(st, "ompend", s["line"], name=o.d, extra=o)

    # ---------------- loops
    def s_for(self, s, st):
        if s.get("init"): self.stmt(s["init"], st)
        self.loop(s, st, s.get("c"), s.get("inc"), s["body"])

    def s_while(self, s, st): self.loop(s, st, s["c"], None, s["body"])
    def s_do(self, s, st):
        if s["c"].get("cv") == 0 and not jumps(s["body"]): return self.stmt(s["body"], st)     # do { } while(0): once
        self.loop(s, st, s["c"], None, s["body"], post=True)

    def s_rangefor(self, s, st):
        r = s["range"]
        v = self.val(r, st)
        if v.op == "vec" or (v.op == "ptr"):
            reg = v.a[0]
            n = self.rdcell(st, mk("fld", reg, "$size"), "unsigned long")
        else:
            reg, n = mk("deref", v), self.fresh("n")
        self.uid += 1
        cell = mk("obj", "$it%d" % self.uid)
        st.cells[cell] = ZERO
        islist = r["tc"] in ("rec", "ref") and strip(r["t"]).startswith(("std::list<", "std::__cxx11::list<")) and r["k"] in ("ref", "memb", "mem", "member", "opcall", "call", "sub", "idx", "un", "cast")
        if islist:
            # a list is walked from its begin to its end, as an iterator loop would
            src = self.lval(r, st)
            st.cells[cell] = mk("call", "list.begin", src)
            n = mk("call", "list.end", src)

        def bind(s1):
            i = s1.cells[cell]
            vd = s["var"]
            lv = self.target(i, vd["t"]) if islist else mk("elem", reg, i)
            if vd["tc"] == "ref": self.stack[-1].env[vd["id"]] = lv
            else:
                loc = mk("obj", "%s#%d" % (vd["n"], self.stack[-1].uid))
                self.stack[-1].env[vd["id"]] = loc
                self.lty[loc] = vd["t"]
                for d in self.decls: d.add(loc)
                self.declw[loc] = tuple(f for f in self.ctx if isinstance(f, (Omp, Loop)))
                if strip(vd["t"]) in self.p.records:
                    self.dyn[loc] = strip(vd["t"])
                    self.copyrec(s1, loc, mk("rec", lv), strip(vd["t"]), s["line"], decl=True)
                else: self.wrcell(s1, loc, self.rd(s1, lv, vd["t"], s["line"]), s["line"], decl=True)
        self.loop(s, st, None, None, s["body"], hook=(cell, n, bind))
        st.cells.pop(cell, None)

    def one_iter(self, st, cond, inc, body, hook, post, guard=True):
        """abstract iteration; returns (condition term, break states)"""
        self.brk = list(self.brk) + [LoopBrk()]
        c = TRUE
        if hook:
            cell, n, bind = hook
            it = st.cells[cell]
            c = not_(eq(it, n)) if n.op == "call" and n.a[0] == "list.end" else cmp("<", it, n)
            bind(st)
        elif cond is not None and not post:
            c = self.cond(cond, st)
        self.stmt(body, st)
        b = self.brk[-1]
        conts = [x for x in b if x[0] == "cont"]
        if st.dead == "cont": st.dead = None
        base_live = []
        for x in conts:
            if st.dead is None:
                if any(st.cells.get(k) is not v for k, v in x[1].cells.items()) or any(k not in x[1].cells for k in st.cells) or \
                        any(self.localarr(k) and st.writes.get(k) != x[1].writes.get(k) for k in set(st.writes) | set(x[1].writes)):
                    g = self.fresh("cont")
                    for l in st.live:
                        if l[1] == "cont": g = l[0]
                    old = st.copy()
                    self.merge(st, tocond(g), old, x[1])
                    st.dead = None
            elif st.dead in ("brk", "ret", "throw"):
                st.cells, st.writes, st.dead = x[1].cells, x[1].writes, None
        self.brk = self.brk[:-1]
        st.live = [l for l in st.live if l[1] != "cont"]
        brks = [x for x in b if x[0] == "brk"]
        if st.dead is None:
            if hook:
                it = st.cells[hook[0]]
                st.cells[hook[0]] = mk("call", "list.next", it) if hook[1].op == "call" and hook[1].a[0] == "list.end" else add(it, ONE)
            if inc: self.val(inc, st)
            if post and cond is not None: c = self.cond(cond, st)
        return c, brks

    def loop(self, s, st, cond, inc, body, post=False, hook=None):
        if st.dead: return
        line = s["line"]
        self.uid += 1
        uid = self.uid
        rec0 = self.rec
        self.rec = 0
        fr0 = self.stack[-1]
        fr0.lmark.append((len(fr0.autos), "loop"))
        try: self.loop1(s, st, cond, inc, body, post, hook, line, uid, rec0)
        finally:
            fr0.lmark.pop()

    def loop1(self, s, st, cond, inc, body, post, hook, line, uid, rec0):
        M, W = set(), set()
        init = {}
        kinds = {}
        h = {}
        endv, c, brks, dead = {}, TRUE, [], None
        for it in range(5):
            s1 = st.copy()
            for m in M:
                s1.cells[m] = self.havoc(m, st, h, uid, kinds)
            for w in W: s1.writes.pop(w, None)
            self.mods.append((set(), set())); self.decls.append(set())
            nunk = len(self.unknown)
            try:
                c, brks = self.one_iter(s1, cond, inc, body, hook, post)
            finally:
                mm = self.mods.pop(); dd = self.decls.pop()
            del self.unknown[nunk:]
            new = {m for m in mm[0] if not self.under(m, dd)}
            if hook: new.add(hook[0])
            changed = not (new <= M)
            neww = {w for w in mm[1] if not self.under(w, dd)}
            # pointer cells that change base
            for m in list(new):
                v1 = s1.cells.get(m)
                if m in h and h[m].op == "ptr" and v1 is not None and (v1.op != "ptr" or v1.a[0] is not h[m].a[0]) and kinds.get(m) != "opq":
                    kinds[m] = "opq"; changed = True
            M |= new
            if not neww <= W: changed = True
            W |= neww
            endv = s1.cells
            dead = s1.dead
            if not changed: break
        self.rec = rec0
        for m in M:
            if m not in h: self.havoc(m, st, h, uid, kinds)
        initv = {m: self.rdcell(st, m, self.lty.get(m)) for m in M}
        # classification
        ind, red = {}, {}
        hs = {}
        for m in M:
            hv = h.get(m)
            if hv is None: continue
            hs[m] = hv.a[1] if hv.op == "ptr" else hv
        allh = list(hs.values())
        for m in M:
            hv, ev = h.get(m), endv.get(m)
            if hv is None or ev is None or dead: continue
            if hv.op == "ptr":
                if ev.op != "ptr" or ev.a[0] is not hv.a[0] or kinds.get(m) == "opq": continue
                d = sub(ev.a[1], hv.a[1])
            else:
                if ev.op in COND or ev.op in ("ptr", "null", "vec", "str", "rec", "lv", "lambda", "stream", "uninit") or initv[m].op in ("str", "vec", "ptr", "null"): continue
                if hv.op in COND: continue
                d = sub(ev, hv)
            if not any(mentions(d, x) for x in allh):
                ind[m] = d          # invariant step: possibly zero
        nonind = [x for m, x in hs.items() if m not in ind]
        for m in M:
            if m in ind or m not in hs or dead: continue
            hv, ev = h[m], endv.get(m)
            if hv.op == "ptr" or ev is None or ev.op in COND or ev.op in ("ptr", "null", "vec", "str", "rec", "lv", "lambda", "stream", "uninit"): continue
            if initv[m].op in ("str", "vec", "ptr", "null", "uninit", "lambda"): continue
            d = sub(ev, hv)
            if not any(mentions(d, x) for x in nonind): red[m] = d
        # running minimum and maximum
        mred = {}
        for m in M:
            hv, ev = h.get(m), endv.get(m)
            if hv is None or ev is None or dead or m in ind or m in red or hv.op == "ptr" or initv[m].op in ("uninit", "ptr", "null", "str", "vec", "lambda"): continue
            x = minmax(ev, hv)
            if x and not any(mentions(x[1], y) for y in nonind): mred[m] = x
        # a step that depends on memory read in the loop is a reduction, not an induction
        for m in list(ind):
            if any(t.op in ("load", "mload", "opq", "mopq", "elemof") and (t.op in ("opq", "mopq") or True) for t in walk(ind[m])):
                red[m] = ind.pop(m)
        # trip count
        n, dir_, known = None, 0, False
        extra = TRUE
        loc0 = None
        conj = list(c.a[0]) if c.op == "and" else [c]
        steps = {hs[m]: ind[m] for m in ind}
        i0 = {hs[m]: (initv[m].a[1] if h[m].op == "ptr" and initv[m].op == "ptr" else initv[m]) for m in hs}
        for q in conj:
            neq = q.op == "not" and q.a[0].op in ("eq0", "eq")
            if q.op in ("lt0", "ltf") or neq:
                p = q.a[0] if not neq else q.a[0].a[0]
                if neq and q.a[0].op == "eq": continue
                vs = [x for x in allh if mentions(p, x)]
                if not vs or any(x not in steps for x in vs): continue
                p1 = subst(p, {x: add(x, steps[x]) for x in vs})
                d = numval(sub(p1, p))
                if d is None or d == 0: continue
                p0 = subst(p, {x: i0[x] for x in vs})
                if neq:
                    if abs(d) != 1: continue
                    nn = scale(p0, -d)
                else:
                    if d < 0: continue
                    nn = neg(p0) if d == 1 else mk("call", "ceildiv", neg(p0), num(d))
                    if numval(p0) is not None:
                        import math
                        nn = num(max(0, math.ceil(-numval(p0) / d)))
                if post: nn = add(nn, ONE) if False else nn
                n, known = nn, True
                st_ = [numval(steps[x]) for x in vs]
                dir_ = -1 if all(x is not None and x < 0 for x in st_) else 1
                rest = [x for x in conj if x is not q]
                extra = and_(*rest)
                break
        if n is None:
            n = mk("opq", "trip%d" % uid)
            extra = c
        vn = numval(n)
        L = Loop()
        L.uid, L.n, L.dir, L.line, L.fn, L.known = uid, n, dir_ if known else 0, line, self.stack[-1].f, known
        L.T = mk("sym", "i%d" % uid)
        L.iv = self.ivar(inc)
        L.brk = bool(brks) or extra is not TRUE
        L.cond, L.lo, L.kind = extra, None, "loop"
        if vn is not None and vn <= 0 and known and not post:
            return
        t = L.T if dir_ >= 0 else add(n, num(-1), neg(L.T))
        if vn == 1 and known and not post: t = ZERO
        wreads = W
        def closed(d):
            return not any(stale(x) for x in walk(d))
        def stale(x):
            """a read of memory that the loop changes or that exists within one iteration only"""
            return x.op in ("load", "mload", "elemof") and (x.a[0] in W or self.under(x.a[0], dd))
        def cont(d):
            return self.contents(st, d, W, (L.T, n) if known else None)
        single = vn == 1 and known and not post
        s2 = st.copy()
        for m in M:
            hv = h[m]
            if single:
                if initv[m].op != "uninit": s2.cells[m] = initv[m]
                else: s2.cells.pop(m, None)
            elif m in ind:
                k = mul(ind[m], t)
                s2.cells[m] = mk("ptr", hv.a[0], add(i0[hs[m]], k)) if hv.op == "ptr" else add(initv[m], k)
                if hv.op == "ptr" and initv[m].op != "ptr": s2.cells[m] = hv
            elif m in red and not is_mat(red[m]) and not is_mat(initv[m]):
                s2.cells[m] = mk("opq", "acc%d.%s" % (uid, show(m)))
                if known and dir_ > 0 and initv[m].op != "uninit":
                    k = mk("sym", "k%d" % uid)
                    tt = {hs[x]: add(i0[hs[x]], mul(ind[x], k)) for x in ind}
                    r1 = self.contents(st, subst(red[m], tt), W, (k, n))
                    if not any(x.op in ("opq", "mopq", "uninit") for x in walk(r1)) and closed(r1):
                        s2.cells[m] = add(initv[m], sum_(k, L.T, r1))
            elif m in red:
                s2.cells[m] = mk("mopq", "acc%d.%s" % (uid, show(m)))
            else:
                s2.cells[m] = hv
        if extra is not TRUE: L.cond = subst(extra, {hs[m]: add(i0[hs[m]], mul(ind[m], t)) for m in ind})
        if not single:
            for w in W: s2.writes.pop(w, None)
        if not single: self.ctx.append(L)
        nlive = len(s2.live)
        starts = {m: s2.cells.get(m) for m in M}
        self.mods.append((set(), set())); self.decls.append(set())
        try:
            c2, brks2 = self.one_iter(s2, cond, inc, body, hook, post)
        finally:
            if not single: self.ctx.pop()
            self.mods.pop(); self.decls.pop()
        for m in M:
            for mm in self.mods: mm[0].add(m)
        for w in W:
            for mm in self.mods: mm[1].add(w)
        if brks2: L.brk = True
        for m, x in starts.items():
            if x is not None and x.op in ("opq", "mopq") and s2.dead is None and not brks2: self.carry[x] = (initv[m], s2.cells.get(m), uid)
        # after the loop
        exact = known and not L.brk and not brks2
        rets = [l for l in s2.live[nlive:] if l[1] == "ret"]
        sub_ = {}
        for m in ind: sub_[hs[m]] = add(i0[hs[m]], mul(ind[m], t))
        for m in M:
            hv = h[m]
            if single and exact and s2.dead is None:
                st.cells[m] = s2.cells.get(m, hv)
            elif m in ind and exact:
                k = mul(ind[m], n)
                st.cells[m] = mk("ptr", hv.a[0], add(i0[hs[m]], k)) if hv.op == "ptr" and initv[m].op == "ptr" else (add(initv[m], k) if hv.op != "ptr" else self.freshp())
            elif m in ind and ind[m] is ZERO and all(b[1].cells.get(m, initv[m]) is s2.cells.get(m, initv[m]) for b in brks2):
                st.cells[m] = initv[m]
            elif m in red and exact:
                d = cont(subst(red[m], sub_))
                if not closed(d): d = subst(d, {x: mk("opq", "%s at %d of " % (x.op, uid), x, L.T) for x in walk(d) if stale(x)})
                st.cells[m] = add(initv[m], sum_(L.T, n, d))
            elif m in mred and exact and closed(mred[m][1]):
                st.cells[m] = extremum(mred[m][0], initv[m], L.T, n, cont(subst(mred[m][1], sub_)))
            elif vn == 1 and exact and m in s2.cells and s2.dead is None:
                st.cells[m] = s2.cells[m]
            else:
                self.uid += 1
                ev = endv.get(m)
                if hv.op == "ptr": st.cells[m] = self.freshp() if kinds.get(m) == "opq" else mk("ptr", hv.a[0], mk("opq", "out%d.%s" % (uid, show(m))))
                elif is_mat(hv) or (ev is not None and is_mat(ev)): st.cells[m] = mk("mopq", "out%d.%s" % (uid, show(m)))
                elif initv[m].op in ("vec", "rec", "lambda", "stream"): st.cells[m] = initv[m]
                else:
                    st.cells[m] = mk("opq", "out%d.%s" % (uid, show(m)))
                    self.outs[st.cells[m]] = (m, uid, initv[m])
        for w in W:
            ws = s2.writes.get(w)
            if single and exact and s2.dead is None:
                if ws is None: st.writes.pop(w, None)
                else: st.writes[w] = ws
                continue
            if ws and exact and self.localarr(w) and not s2.live[nlive:]:
                x = self.looplog(w, ws, L, n, vn, W)
                if x is not None:
                    st.writes[w] = st.writes.get(w, []) + x
                    continue
            st.writes.pop(w, None)
            if ws and w.op == "region" and exact and len(ws) == 1 and not s2.live[nlive:] and not self._guarded_in(w):
                o, v, k = ws[0]
                if k == "w" and o.op == "ij": st.writes[w] = [(([(L.T, n)], o), v, "range")]
                elif k == "range" and o[0]: st.writes[w] = [((o[0] + [(L.T, n)], o[1]), v, "range")]
                else: st.writes[w] = [(([], ZERO), ZERO, "range")]
            elif w.op == "region" and ws:
                st.writes[w] = [(([], ZERO), ZERO, "range")]
            # a matrix whose every element the loop nest has set is a whole-matrix value from here on
            if w.op == "region" and st.writes.get(w) and eigdims(strip(self.lty.get(w.a[0]) or "")):
                mv = self.matwhole(st, w.a[0], None, st.writes[w], strip(self.lty[w.a[0]]), True)
                if mv is not None:
                    st.cells[w.a[0]] = mv
                    st.writes.pop(w)
                    for mm in self.mods: mm[0].add(w.a[0])
        for l in rets: st.live.append((mk("nz", self.fresh("noret")), "ret"))
        if s2.dead in ("ret", "throw") and not known and cond is None and not brks2:
            st.dead = s2.dead
        if s2.cells: 
            for k, v in s2.cells.items():
                if k not in st.cells and k not in M and v.op not in ("opq",): st.cells.setdefault(k, v) if v is self.deflt(k, self.lty.get(k)) else None

    def ivar(self, inc):
        """the variable a for-statement increments"""
        while inc is not None and inc["k"] in ("cast", "paren") and inc.get("e"): inc = inc["e"]
        if inc is None: return None
        x = inc.get("e") if inc["k"] == "un" else inc.get("l") if inc["k"] == "bin" else None
        while x is not None and x["k"] == "cast": x = x["e"]
        return self.stack[-1].env.get(x.get("id")) if x is not None and x["k"] == "ref" and self.stack else None

    def _guarded_in(self, w): return False

    def freshp(self):
        return mk("ptr", mk("deref", self.fresh("p")), ZERO)

    def under(self, loc, dd):
        while True:
            if loc in dd: return True
            if loc.op in ("fld", "region", "cell", "elem", "deref") and isinstance(loc.a[0], T): loc = loc.a[0]
            else: return False

    def havoc(self, m, st, h, uid, kinds):
        v = h.get(m)
        if v is not None and not (kinds.get(m) == "opq" and v.op == "ptr" and v.a[0].op != "deref"):
            return v
        i = self.rdcell(st, m, self.lty.get(m))
        nm = "h%d.%s" % (uid, show(m))
        if i.op == "ptr" and kinds.get(m) != "opq": v = mk("ptr", i.a[0], mk("opq", nm))
        elif i.op in ("ptr", "null") or kinds.get(m) == "opq": v = mk("ptr", mk("deref", mk("opq", nm)), ZERO)
        elif i.op in ("vec", "rec", "lambda", "stream", "lv"): v = i
        elif is_mat(i) or (i is ZERO and eigdims(strip(self.lty.get(m, "")))) : v = mk("mopq", nm)
        elif i.op in COND: v = mk("nz", mk("opq", nm))
        else: v = mk("opq", nm)
        h[m] = v
        self.heads[v] = i
        return v

    # ---------------- entry
    def run(self, f, args=None, this=None, cls=None, st=None, names=None):
        """analyse f as an entry point; parameters are named p0, p1, ... unless given"""
        st = st or State()
        self.st = st
        if this is None and f.get("cls") and not f.get("mstatic"):
            this = mk("obj", "this")
        if this is not None and cls: self.dyn[this] = cls
        a = []
        for i, p in enumerate(f["params"]):
            nm = (names[i] if names and i < len(names) else "p%d" % i)
            if args and i in args: a.append(args[i]); continue
            loc = mk("obj", nm)
            if p["tc"] == "ref":
                self.lty[loc] = p["t"]
                a.append(("lv", loc))
            elif p["tc"] == "rec" and strip(p["t"]) in self.p.records: a.append(("v", mk("rec", loc)))
            elif p["tc"] == "ptr":
                a.append(("v", mk("ptr", loc, ZERO)))
            else:
                a.append(("v", self.deflt(loc, p["t"])))
        if f.get("ctor"):
            self.runctor_entry(f, this, a, st)
            return None
        r = self.inline(f, a, this, st, f["line"], want_lv=True)
        return r

    def runctor_entry(self, f, this, a, st):
        self.runctor(f, this, a, st, f["line"])


def onearm(w1, w2):
    """one log of stores is the other plus plain element stores"""
    a, b = (w1, w2) if len(w1) < len(w2) else (w2, w1)
    return b[:len(a)] == a and all(k == "w" for _, _, k in b[len(a):])


def minmax(ev, hv):
    """("min"|"max", x) when ev is the smaller or larger of hv and x"""
    if ev.op == "call" and ev.a[0] in ("std::min", "std::max", "fmin", "fmax", "std::fmin", "std::fmax") and len(ev.a) == 3:
        a, b = ev.a[1], ev.a[2]
        if (a is hv) != (b is hv): return ev.a[0][-3:], b if a is hv else a
    if ev.op == "ite" and ev.a[0].op in ("lt0", "ltf"):
        c, a, b = ev.a
        if (a is hv) == (b is hv): return None
        x = b if a is hv else a
        if mentions(x, hv): return None
        if c.a[0] is sub(a, b): return "min", x
        if c.a[0] is sub(b, a): return "max", x
    return None


def extremum(kind, init, t, n, x):
    """the smallest (largest) of init and x over t in [0,n)"""
    return mk("call", kind + "over", init, sum_(t, n, mk("call", kind + "1", x)))


class LoopBrk(list):
    pass


class TooBig(Exception):
    pass


def loc_ref(loc):
    return mk("lv", mk("deref", loc))
