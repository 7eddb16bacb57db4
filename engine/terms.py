"""Hash-consed value terms: the abstract domain of the value-flow analysis (global value numbering with
polynomial normal forms).  Two program expressions that compute the same polynomial over the same memory
reads get the same term, whatever local variables, helpers or statement order they went through."""
from fractions import Fraction

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "_h", "d")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        t._h = t.id
        m = 0
        if op == "poly":
            for c, s, nc in a[0]:
                for x, p in s:
                    if x.d > m: m = x.d
                for x in nc:
                    if x.d > m: m = x.d
        else:
            for x in a:
                if isinstance(x, T):
                    if x.d > m: m = x.d
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T) and y.d > m: m = y.d
        if op in ("sum", "elementwise"):
            m += 1
        t.d = m
        _tab[k] = t
    return t


# ---- leaves
def sym(n): return mk("sym", n)
def bv(k): return mk("bv", k)
def string(s): return mk("str", s)


# ---- polynomials:  ("poly", ((coef, ((atom,pow),...), (ncatom,...)), ...))
def num(c):
    c = Fraction(c)
    if c == 0: return ZERO
    return mk("poly", ((c, (), ()),))


def _mkpoly(d):
    items = tuple(sorted(((c, s, nc) for (s, nc), c in d.items() if c != 0),
                         key=lambda x: (tuple((y.id, p) for y, p in x[1]), tuple(y.id for y in x[2]))))
    if len(items) == 1:
        c, s, nc = items[0]
        if c == 1 and len(s) == 1 and s[0][1] == 1 and not nc: return s[0][0]
        if c == 1 and not s and len(nc) == 1: return nc[0]
    return mk("poly", items)


MAT = set()   # terms (by id) of matrix kind: multiply non-commutatively


def is_mat(t):
    if t.op == "poly":
        return any(nc for _, _, nc in t.a[0])
    if t.op in ("ite",):
        return is_mat(t.a[1]) or is_mat(t.a[2])
    if t.op == "sum":
        return is_mat(t.a[2])
    return t.op in ("mload", "minv", "mtr", "mopq", "elementwise", "mident", "mcall", "mdiag") or t.id in MAT


ZERO = mk("poly", ())
ONE = num(1)


def items(t):
    if t.op == "poly": return t.a[0]
    if is_mat(t): return ((Fraction(1), (), (t,)),)
    return ((Fraction(1), ((t, 1),), ()),)


def isnum(t):
    return t.op == "poly" and (t.a[0] == () or (len(t.a[0]) == 1 and not t.a[0][0][1] and not t.a[0][0][2]))


def numval(t):
    if t.op != "poly": return None
    if t.a[0] == (): return Fraction(0)
    if isnum(t): return t.a[0][0][0]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for c, s, nc in items(t):
            k = (s, nc)
            d[k] = d.get(k, 0) + c
    return _mkpoly(d)


def scale(t, k):
    k = Fraction(k)
    return _mkpoly({(s, nc): c * k for c, s, nc in items(t)})


def neg(t): return scale(t, -1)
def sub(a, b): return add(a, neg(b))


def _muls(s1, s2):
    d = {}
    for x, p in s1: d[x] = d.get(x, 0) + p
    for x, p in s2: d[x] = d.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in d.items() if p), key=lambda y: y[0].id))


def mul(a, b):
    d = {}
    for c1, s1, n1 in items(a):
        for c2, s2, n2 in items(b):
            k = (_muls(s1, s2), _ncmul(n1, n2))
            d[k] = d.get(k, 0) + c1 * c2
    return _mkpoly(d)


def _ncmul(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[-1], b[0]
        if (x.op == "minv" and x.a[0] is y) or (y.op == "minv" and y.a[0] is x):
            a.pop(); b.pop(0)
            if not a and not b:
                return (mk("mident"),)
            continue
        if x.op == "mident" : a.pop(); continue
        if y.op == "mident" and a: b.pop(0); continue
        break
    return tuple(a + b)


def inv(b):
    """1/b (scalars)"""
    v = numval(b)
    if v is not None and v != 0: return num(1 / v)
    if is_mat(b): return minv(b)
    it = items(b)
    if len(it) == 1:
        c, s, nc = it[0]
        return _mkpoly({(tuple((x, -p) for x, p in s), ()): 1 / c})
    return mk("inv", b)


def div(a, b): return mul(a, inv(b))


def minv(b):
    if b.op == "minv": return b.a[0]
    it = items(b)
    if len(it) == 1:
        c, s, nc = it[0]
        if len(nc) == 1 and (c != 1 or s):
            return mul(inv(_mkpoly({(s, ()): c})), minv(nc[0]))
        if len(nc) > 1:
            r = ONE
            for x in reversed(nc): r = mul(r, minv(x))
            return mul(inv(_mkpoly({(s, ()): c})), r) if (c != 1 or s) else r
    return mk("minv", b)


# ---- memory
def load(base, off, ety=None):
    r = mk("load", base, off)
    return r


def mload(base, off): return mk("mload", base, off)


# ---- conditions
TRUE, FALSE = mk("true"), mk("false")


def lt0(p, isint=True):
    v = numval(p)
    if v is not None: return TRUE if v < 0 else FALSE
    if isint and NONNEG:
        s = sign(p)
        if s == "+": return FALSE
        if s == "-": return TRUE
    return mk("lt0", p) if isint else mk("ltf", p)


NONNEG = set()          # calls whose result is known not to be negative


def sign(p):
    """"+": never negative, "-": always negative"""
    s = set()
    for k, f, m in items(p):
        if not f and not m: s.add("+" if k >= 0 else "-")
        elif not m and len(f) == 1 and f[0][1] == 1 and f[0][0].op == "call" and f[0][0].a[0] in NONNEG: s.add("+" if k > 0 else "0-")
        else: return None
    if s == {"+"}: return "+"
    if "-" in s and "+" not in s: return "-"
    return None


def decided(op, a, b, isint):
    """a choice compared with a number, when every branch decides the comparison"""
    for x, y, l in ((a, b, True), (b, a, False)):
        if x.op == "ite" and numval(y) is not None:
            r = [cmp(op, z, y, isint) if l else cmp(op, y, z, isint) for z in x.a[1:]]
            if all(t is TRUE or t is FALSE for t in r): return ite_c(x.a[0], *r)
    return None


def cmp(op, a, b, isint=True):
    if NONNEG and op not in ("==", "!="):
        r = decided(op, a, b, isint)
        if r is not None: return r
    if True:
        if op in ("==", "!="):
            r = eq(a, b)
            return r if op == "==" else not_(r)
        if a.op in ("ptr",) and b.op in ("ptr",):
            if a.a[0] is b.a[0]: a, b = a.a[1], b.a[1]
            else: return mk("cmp", op, a, b)
        if isint:
            if op == "<": return lt0(sub(a, b))
            if op == "<=": return lt0(add(a, neg(b), num(-1)))
            if op == ">": return lt0(sub(b, a))
            if op == ">=": return lt0(add(b, neg(a), num(-1)))
        if op == "<": return lt0(sub(a, b), False)
        if op == ">": return lt0(sub(b, a), False)
        if op == "<=": return not_(lt0(sub(b, a), False))
        if op == ">=": return not_(lt0(sub(a, b), False))
    raise ValueError(op)


NULLP = mk("null")
_distinct_heads = ("obj", "heap")


def eq(a, b):
    if a is b: return TRUE
    if a.op == "str" and b.op == "str": return FALSE
    for x, y in ((a, b), (b, a)):
        if x is NULLP or (x is ZERO and y.op == "ptr"):
            if y.op == "ptr":
                if y.a[0].op in ("obj", "heap", "region"): return FALSE
                return mk("isnull", y.a[0])
            if x is NULLP: return mk("eq", NULLP, y)
    if a.op == "ptr" and b.op == "ptr":
        if a.a[0] is b.a[0]: return eq(a.a[1], b.a[1])
        if a.id > b.id: a, b = b, a
        return mk("eq", a, b)
    if a.op in ("str", "ptr", "null") or b.op in ("str", "ptr", "null"):
        if a.id > b.id: a, b = b, a
        return mk("eq", a, b)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if b in (TRUE, FALSE): a, b = b, a
        b = tocond(b)
        return b if a is TRUE else not_(b)
    if a.op == "ite" and numval(b) is not None and choice(a): return ite_c(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and numval(a) is not None and choice(b): return ite_c(b.a[0], eq(b.a[1], a), eq(b.a[2], a))
    d = sub(a, b)
    v = numval(d)
    if v is not None: return TRUE if v == 0 else FALSE
    if NONNEG:
        if sign(d) == "-" or sign(neg(d)) == "-": return FALSE
        r = decided("==", a, b, True)
        if r is not None: return r
    it = items(d)
    if it[0][0] < 0: d = neg(d)
    return mk("eq0", d)


def choice(t):
    """a number chosen by conditions"""
    return choice(t.a[1]) and choice(t.a[2]) if t.op == "ite" else numval(t) is not None


def not_(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.a[0]
    if c.op == "lt0": return lt0(add(neg(c.a[0]), num(-1)))
    if c.op == "and": return or_(*[not_(x) for x in c.a[0]])
    if c.op == "or": return and_(*[not_(x) for x in c.a[0]])
    return mk("not", c)


def and_(*cs):
    s = []
    for c in cs:
        for x in (c.a[0] if c.op == "and" else (c,)):
            if x is FALSE: return FALSE
            if x is TRUE or x in s: continue
            s.append(x)
    for x in s:
        if not_(x) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk("and", tuple(sorted(s, key=lambda y: y.id)))


def or_(*cs):
    s = []
    for c in cs:
        for x in (c.a[0] if c.op == "or" else (c,)):
            if x is TRUE: return TRUE
            if x is FALSE or x in s: continue
            s.append(x)
    for x in s:
        if not_(x) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return s[0]
    # (a and x) or (a and not x) = a
    return mk("or", tuple(sorted(s, key=lambda y: y.id)))


COND = {"true", "false", "lt0", "ltf", "eq0", "eq", "isnull", "not", "and", "or", "cmp", "nz"}


def tocond(t):
    """truth value of a term"""
    if t.op in COND: return t
    v = numval(t)
    if v is not None: return TRUE if v != 0 else FALSE
    if t.op == "ptr": return not_(eq(t, NULLP))
    if t is NULLP: return FALSE
    if t.op == "ite": return ite_c(t.a[0], tocond(t.a[1]), tocond(t.a[2]))
    return mk("nz", t)


def toval(t):
    """a condition used as a number"""
    if t is TRUE: return ONE
    if t is FALSE: return ZERO
    return t


def ite_c(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


def absv(x):
    """|x|, the same term for x and -x"""
    n = numval(x)
    if n is not None: return num(abs(n))
    y = neg(x)
    return mk("call", "abs", y if y.id < x.id else x)


def ite(c, a, b):
    c = tocond(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op in ("lt0", "ltf") and a is neg(b) and not is_mat(a) and a.op not in COND:
        if c.a[0] is b: return absv(b)
        if c.a[0] is a: return neg(absv(b))
    if a.op in COND or b.op in COND:
        return ite_c(c, tocond(a), tocond(b))
    if c.op == "not": return ite(c.a[0], b, a)
    if c.op == "lt0":
        n = not_(c)
        if n.id < c.id: return ite(n, b, a)
    if c.op == "or" :
        n = not_(c)
        if n.op == "and": return ite(n, b, a)
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    arith = lambda x: x.op in ("poly", "load", "sym", "sum", "mload", "ite", "inv", "bv", "call", "minv", "elem", "mopq", "opq") or is_mat(x)
    if arith(a) and arith(b) and (a.op == "poly" or b.op == "poly") and not (isnum(a) and isnum(b)):
        common = {}
        ia = {(s, nc): k for k, s, nc in items(a)}
        ib = {(s, nc): k for k, s, nc in items(b)}
        for k in ia:
            if k in ib and ib[k] == ia[k]: common[k] = ia[k]
        if common:
            cm = _mkpoly(common)
            return add(cm, ite(c, sub(a, cm), sub(b, cm)))
    return mk("ite", c, a, b)


# ---- sums: bound variables are numbered by nesting depth, so that alpha-equivalent sums are one term
def sum_(t, n, body):
    """sum over t in [0,n) of body"""
    if body is ZERO: return ZERO
    v = numval(n)
    if v is not None and v <= 0: return ZERO
    # pull out invariant scalar factors term by term
    out = []
    for c, s, nc in items(body):
        inside = tuple((x, p) for x, p in s if mentions(x, t))
        outside = tuple((x, p) for x, p in s if not mentions(x, t))
        k = _mkpoly({(outside, ()): c})
        lnc = []
        rnc = list(nc)
        while rnc and not mentions(rnc[0], t): lnc.append(rnc.pop(0))
        rn2 = []
        while rnc and not mentions(rnc[-1], t): rn2.insert(0, rnc.pop())
        if not inside and not rnc:
            r = mul(mul(k, n), _mkpoly({((), nc): 1})) if nc else mul(k, n)
        else:
            b = _mkpoly({(inside, tuple(rnc)): 1})
            r = mul(k, _sum1(t, n, b))
            if lnc: r = mul(_mkpoly({((), tuple(lnc)): 1}), r)
            if rn2: r = mul(r, _mkpoly({((), tuple(rn2)): 1}))
        out.append(r)
    return add(*out)


def _descends(b, t):
    """every offset that mentions t falls with t"""
    found = False
    for x in walk(b):
        if x.op in ("load", "mload") and x.a[1].op == "poly":
            for c, s, nc in x.a[1].a[0]:
                if len(s) == 1 and s[0] == (t, 1) and not nc:
                    if c > 0: return False
                    found = True
    return found


def _sum1(t, n, b):
    if _descends(b, t): b = subst(b, {t: add(n, num(-1), neg(t))})
    depth = b.d
    v = bv(depth)
    return mk("sum", n, v, subst(b, {t: v}))


_ment = {}


def mentions(t, x):
    if t is x: return True
    if t.id < x.id: return False
    k = (t.id, x.id)
    r = _ment.get(k)
    if r is None:
        r = any(mentions(c, x) for c in children(t))
        _ment[k] = r
    return r


def children(t):
    if t.op == "poly":
        for c, s, nc in t.a[0]:
            for x, p in s: yield x
            for x in nc: yield x
        return
    for x in t.a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): yield y


def walk(t, seen=None):
    if seen is None: seen = set()
    if t.id in seen: return
    seen.add(t.id)
    yield t
    for c in children(t):
        yield from walk(c, seen)


def rebuild(t, f):
    """t with f applied to its children, renormalised"""
    op, a = t.op, t.a
    if op == "poly":
        out = []
        for c, s, nc in a[0]:
            r = num(c)
            for x, p in s:
                y = f(x)
                for _ in range(abs(p)): r = mul(r, y if p > 0 else inv(y))
            for x in nc: r = mul(r, f(x))
            out.append(r)
        return add(*out) if out else ZERO
    if op == "minv": return minv(f(a[0]))
    if op == "inv": return inv(f(a[0]))
    if op == "lt0": return lt0(f(a[0]))
    if op == "ltf": return lt0(f(a[0]), False)
    if op == "eq0": return eq(f(a[0]), ZERO)
    if op == "eq": return eq(f(a[0]), f(a[1]))
    if op == "not": return not_(f(a[0]))
    if op == "and": return and_(*[f(x) for x in a[0]])
    if op == "or": return or_(*[f(x) for x in a[0]])
    if op == "ite": return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == "isnull":
        b = f(a[0])
        return eq(mk("ptr", b, ZERO), NULLP)
    if op == "nz": return tocond(f(a[0]))
    if op == "sum":
        n2, b2 = f(a[0]), f(a[2])
        v = a[1]
        if n2 is a[0] and b2 is a[2]: return t
        t2 = mk("sym", "$tmp%d" % t.id)
        return sum_(t2, n2, subst1(b2, v, t2))
    if op == "call" and a[0] == "abs" and len(a) == 2: return absv(f(a[1]))
    na = []
    ch = False
    for x in a:
        if isinstance(x, T):
            y = f(x); ch |= y is not x; na.append(y)
        elif isinstance(x, tuple):
            z = tuple(f(y) if isinstance(y, T) else y for y in x); ch |= z != x; na.append(z)
        else: na.append(x)
    return mk(op, *na) if ch else t


LEAVES = ("str", "bv", "obj", "true", "false", "null", "heap")


def leaf(t): return t.op in LEAVES or (t.op == "sym" and not isinstance(t.a[0], T))


def subst1(t, x, y): return subst(t, {x: y})


def subst(t, m, memo=None):
    if memo is None: memo = {}
    if t in m: return m[t]
    r = memo.get(t.id)
    if r is not None: return r
    if leaf(t):
        r = t
    else:
        mi = min(x.id for x in m) if m else 0
        if t.id < mi: r = t
        else: r = rebuild(t, lambda c: subst(c, m, memo))
    memo[t.id] = r
    return r


# ---- printing
def show(t, d=0):
    if d > 14: return ".."
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op in ("sym",): return str(a[0])
    if op == "bv": return "τ%d" % a[0]
    if op == "str": return '"%s"' % a[0]
    if op == "obj": return str(a[0])
    if op == "heap": return "heap(%s)" % a[0]
    if op == "fld": return s(a[0]) + "." + a[1]
    if op == "deref": return s(a[0])
    if op == "region": return s(a[0]) + "[]"
    if op == "elem": return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "ptr":
        return "&" + s(a[0]) if a[1] is ZERO else "&%s[%s]" % (s(a[0]), s(a[1]))
    if op == "poly":
        if a[0] == (): return "0"
        out = []
        for c, sc, nc in a[0]:
            f = []
            for x, p in sc:
                y = s(x)
                if x.op in ("poly", "ite"): y = "(" + y + ")"
                f.append(y if p == 1 else "%s^%d" % (y, p))
            for x in nc: f.append(s(x) if x.op != "poly" else "(" + s(x) + ")")
            st = "·".join(f)
            if not f: st = str(c)
            elif c == -1: st = "-" + st
            elif c != 1: st = "%s·%s" % (c, st)
            out.append(st)
        return " + ".join(out).replace("+ -", "- ")
    if op in ("load", "mload"): return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "minv": return "inverse(%s)" % s(a[0])
    if op == "inv": return "1/(%s)" % s(a[0])
    if op == "sum": return "Σ{%s<%s}(%s)" % (s(a[1]), s(a[0]), s(a[2]))
    if op == "lt0": return "%s<0" % s(a[0])
    if op == "ltf": return "%s<0." % s(a[0])
    if op == "eq0": return "%s==0" % s(a[0])
    if op == "eq": return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "isnull": return "%s==null" % s(a[0])
    if op == "not": return "!(%s)" % s(a[0])
    if op == "nz": return s(a[0])
    if op in ("and", "or"): return "(" + (" && " if op == "and" else " || ").join(s(x) for x in a[0]) + ")"
    if op == "ite": return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "null": return "null"
    return "%s(%s)" % (op, ",".join(s(x) if isinstance(x, T) else ("(" + ",".join(s(y) if isinstance(y, T) else str(y) for y in x) + ")" if isinstance(x, tuple) else str(x)) for x in a))
