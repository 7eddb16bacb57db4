"""Shared machinery of the checks: obligations, known findings, evidence, canonical stores, content forwarding."""
import json, multiprocessing, os, sys, time
from frontend import Program, AnalysisBroken
from interp import *
from model import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPAQUE = ("opq", "mopq", "out", "uninit", "uninitp", "mcall")


class Check:
    def __init__(self, pid, rule_text, assumptions=()):
        self.pid, self.rule_text, self.assumptions = pid, rule_text, list(assumptions)
        self.t0 = time.time()
        self.obs = []         # (rule, instance, status, where, message)
        self.mins = {}
        self.funcs = set()
        self.units = 0

    # --- obligations
    def ok(self, rule, inst, where=""): self.obs.append((rule, inst, "ok", where, ""))
    def bad(self, rule, inst, where, msg): self.obs.append((rule, inst, "violation", where, msg))
    def und(self, rule, inst, where, msg): self.obs.append((rule, inst, "undecided", where, msg))

    def req(self, cond, rule, inst, where, msg):
        (self.ok(rule, inst, where) if cond else self.bad(rule, inst, where, msg))
        return cond

    def need(self, rule, n):
        """at least n instances of a rule must have been examined"""
        self.mins[rule] = n

    def used(self, I):
        for k in I.inlined: self.funcs.add(k)

    def par(self, p, jobs):
        """run jobs (fn, args...) in forked workers; obligations come back in order"""
        global _JOBS
        _JOBS = [(p, self.pid) + tuple(j) for j in jobs]
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            res = pool.map(_job, range(len(_JOBS)), chunksize=1)
        for obs, funcs, broken in res:
            self.obs += obs
            self.funcs |= funcs
        broken = [b for _, _, b in res if b]
        if broken: raise AnalysisBroken(broken[0])

    # --- outcome
    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"): tier = a
        counts = {}
        for r, i, s, w, m in self.obs:
            c = counts.setdefault(r, {"instances": 0, "ok": 0, "violation": 0, "undecided": 0})
            c["instances"] += 1; c[s] += 1
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.pid]
        viol, kn = [], {}
        for r, i, s, w, m in self.obs:
            if s != "violation": continue
            hit = None
            for k in known:
                if k["rule"] == r and (k["instance"] == i or (k["instance"].endswith("*") and i.startswith(k["instance"][:-1]))): hit = k
            if hit: kn.setdefault(json.dumps(hit, sort_keys=True), []).append((r, i, w, m))
            else: viol.append((r, i, w, m))
        und = [(r, i, w, m) for r, i, s, w, m in self.obs if s == "undecided"]
        bads = [(r, n, counts.get(r, {}).get("instances", 0)) for r, n in self.mins.items() if counts.get(r, {}).get("instances", 0) < n]
        samples = []
        seen = set()
        for r, i, s, w, m in self.obs:
            if s == "ok" and r not in seen:
                seen.add(r); samples.append({"rule": r, "instance": i, "where": w})
        ev = {"property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": {"explanation": self.rule_text, "obligations": len(self.obs),
                           "discharged": sum(1 for o in self.obs if o[2] == "ok"), "undecided": len(und),
                           "undecided_items": [{"rule": r, "instance": i, "where": w, "why": m[:600]} for r, i, w, m in und[:40]],
                           "by_rule": counts, "functions_analysed": len(self.funcs), "units_parsed": self.units,
                           "known_findings_seen": len(kn), "samples": samples[:40]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in kn:
            d = json.loads(k)
            print("KNOWN-FINDING: property=%s %s" % (self.pid, d["what"]))
        for r, i, w, m in und: print("UNDECIDED property=%s rule=%s %s (%s): %s" % (self.pid, r, i, w, m[:400]))
        print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violations; %d functions; %.1fs" % (
            self.pid, len(self.obs), ev["coverage"]["discharged"], len(und), sum(len(v) for v in kn.values()), len(viol), len(self.funcs), time.time() - self.t0))
        if viol:
            rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % self.pid)
            with open(rp, "w") as f:
                for r, i, w, m in viol:
                    f.write("property %s, rule %s\n  instance: %s\n  where: %s\n  %s\n\n" % (self.pid, r, i, w, m))
            for r, i, w, m in viol[:30]: print("  %s [%s] %s: %s" % (w, r, i, m[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        # where undecided instances of the rule say what is missing, nothing has vanished
        bads = [b for b in bads if not any(r in (b[0], "engine") for r, i, w, m in und)]
        if bads:
            print("ANALYSIS-BROKEN: " + "; ".join("rule %s: %d instances, expected at least %d" % (r, h, n) for r, n, h in bads))
            sys.exit(2)
        sys.exit(0)


_JOBS = []


def _job(k):
    p, pid, fn, args = _JOBS[k][0], _JOBS[k][1], _JOBS[k][2], _JOBS[k][3:]
    c = Check(pid, "")
    broken = None
    try:
        fn(c, p, *args)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception as e:      # the engine met a construct it cannot evaluate: nothing is claimed for this instance
        c.und("engine", "%s%r" % (fn.__name__, args), "engine", "%s: %s" % (type(e).__name__, e))
    return c.obs, c.funcs, broken


def main(fn, pid, text, assumptions=()):
    """run a check body; a vanished anchor is an error of the analysis, not a verdict"""
    c = Check(pid, text, assumptions)
    try:
        p = Program()
        c.units = len(getattr(p, "units", ()) or ())
        fn(c, p)
    except AnalysisBroken as e:
        if not any(o[2] == "violation" for o in c.obs):
            print("ANALYSIS-BROKEN: %s" % e)
            sys.exit(2)
    c.finish()


# ------------------------------------------------------------------ canonical stores
D = [mk("sym", "D%d" % i) for i in range(6)]


class Store:
    """one store statement in canonical form: data loops (whose variable the store mentions) D0, D1, ..."""
    __slots__ = ("base", "off", "val", "data", "rep", "guards", "omps", "e", "order", "mat")

    def opaque(self, known=()):
        """does anything in the statement lie outside what the engine follows (terms the requirement itself uses excepted)"""
        return opaque(self.val, known) or opaque(self.off, known) or any(opaque(n, known) for n, d in self.data)

    def __repr__(self):
        return "%s[%s] := %s  data=%s rep=%s guards=%s" % (self.base, self.off, self.val, self.data, self.rep, self.guards)


def opaque(t, known=()):
    if known: t = subst(t, {x: mk("sym", "$known%d" % k) for k, x in enumerate(sorted(known, key=lambda x: x.id))})
    return any(isopaque(x) for x in walk(t))


def isopaque(x):
    return x.op in OPAQUE or (x.op == "sym" and isinstance(x.a[0], T) and opaque(x.a[0])) or \
        (x.op in ("fld", "deref") and isinstance(x.a[0], T) and x.a[0].op in OPAQUE)


def opaques(ts):
    """maximal opaque terms of a requirement"""
    out = set()

    def go(t):
        if isopaque(t): out.add(t); return
        for x in TM.children(t): go(x)
    for t in ts:
        if isinstance(t, T): go(t)
    return out


def canon(e, subs=None):
    s = Store()
    off, val = e.off, e.val
    if subs:
        off, val = subst(off, subs), subst(val, subs)
    loops = e.loops()
    data, rep, m = [], [], {}
    gs = list(e.guards()) + [c for c, k in e.live if k in ("cont", "brk", "ret")]
    if subs: gs = [subst(g, subs) for g in gs]
    for L in loops:
        n = subst(L.n, subs) if subs else L.n
        inner_uses = any(mentions(L2.n, L.T) for L2 in loops if L2 is not L)
        if mentions(off, L.T) or mentions(val, L.T) or any(mentions(g, L.T) for g in gs) or inner_uses:
            m[L.T] = D[len(data)]
            data.append([L, n, L.dir])
        else: rep.append([L, n, L.dir])
    s.data = [(subst(n, m), d) for L, n, d in data]
    s.rep = [(subst(n, m), L) for L, n, d in rep]
    s.base, s.off, s.val = e.base, subst(off, m), subst(val, m)
    s.guards = [subst(g, m) for g in gs if not any(g is not_(h) for h in gs)]
    s.omps, s.e = e.omps(), e
    s.order = [("loop", L) if isinstance(L, Loop) else ("omp", L) if isinstance(L, Omp) else ("if", L) for L in e.ctx]
    s.mat = is_mat(s.val) or s.val.op == "mload"
    mirror(s)
    flatten(s)
    return s


def sense(t, v):
    """the signs with which v is counted in t: subset of {1, -1}, 0 where it occurs otherwise"""
    out = set()
    for x in walk(t):
        if x is v: continue
        if x.op == "poly":
            for k, sc, nc in items(x):
                for f, p in sc:
                    if f is v: out.add((1 if k > 0 else -1) if p == 1 and len(sc) == 1 and not nc else 0)
        elif any(c is v for c in TM.children(x)): out.add(1)
    if t is v: out.add(1)
    return out


def mirror(s):
    """a loop whose counter is only ever counted backwards from its end runs over the mirrored range in the other direction"""
    for k, (n, d) in enumerate(s.data):
        if d == 0: continue
        v = D[k]
        ts = [s.off, s.val] + s.guards + [m for m, _ in s.data] + [m for m, _ in s.rep]
        ts = [t for t in ts if isinstance(t, T) and mentions(t, v)]
        if not ts or not all(sense(t, v) == {-1} for t in ts): continue
        m = {v: sub(add(n, num(-1)), v)}
        s.off, s.val, s.guards = subst(s.off, m), subst(s.val, m), [subst(g, m) for g in s.guards]
        s.data = [(subst(x, m), -y if j == k else y) for j, (x, y) in enumerate(s.data)]
        s.rep = [(subst(x, m), L) for x, L in s.rep]


def coef_of(off, v):
    """linear coefficient of v in off, or None"""
    c = ZERO
    rest = []
    for k, sc, nc in items(off):
        fs = dict(sc)
        if v in fs:
            if fs[v] != 1: return None
            others = tuple((x, p) for x, p in sc if x is not v)
            c = add(c, TM._mkpoly({(others, nc): k}))
        elif any(mentions(x, v) for x, p in sc) or any(mentions(x, v) for x in nc): return None
    return c


def flatten(s):
    """nested loops over a contiguous range become one loop"""
    while len(s.data) >= 2:
        i, j = len(s.data) - 2, len(s.data) - 1
        n1 = numval(s.data[j][0])
        if n1 is None: return
        ci, cj = coef_of(s.off, D[i]), coef_of(s.off, D[j])
        if cj is not ONE or ci is None or numval(ci) != n1: return
        x = mk("sym", "$flat")
        v = subst(s.val, {D[j]: sub(x, scale(D[i], n1))})
        g = [subst(q, {D[j]: sub(x, scale(D[i], n1))}) for q in s.guards]
        if mentions(v, D[i]) or any(mentions(q, D[i]) for q in g): return
        off = subst(s.off, {D[j]: sub(x, scale(D[i], n1))})
        s.val, s.off, s.guards = subst(v, {x: D[i]}), subst(off, {x: D[i]}), [subst(q, {x: D[i]}) for q in g]
        s.data = s.data[:i] + [(scale(s.data[i][0], n1), s.data[i][1])]


def merge_guarded(ss):
    """two stores of one loop instance to one place under complementary conditions are one conditional store"""
    out = []
    for s in ss:
        if out:
            p = out[-1]
            if p.base is s.base and p.off is s.off and p.data == s.data and len(p.guards) == len(s.guards) and \
                    [f for f in p.e.ctx if not isinstance(f, If)] == [f for f in s.e.ctx if not isinstance(f, If)]:
                a, b = [g for g in p.guards if g not in s.guards], [g for g in s.guards if g not in p.guards]
                if len(a) == 1 and len(b) == 1 and (a[0] is not_(b[0])):
                    p.val = ite(a[0], p.val, s.val)
                    p.guards = [g for g in p.guards if g in s.guards]
                    continue
        out.append(s)
    return out


def elementwise(s, n=None):
    """whole-array store: (count, value of scalar element D0) or None"""
    if s.guards or len(s.data) != 1 or s.data[0][1] == 0: return None
    k = coef_of(s.off, D[0])
    if k is None or sub(s.off, mul(k, D[0])) is not ZERO: return None
    kv = numval(k)
    if kv is None or kv < 1: return None
    if kv == 1: return s.data[0][0], s.val
    # one block per iteration: a copy or constant block is an elementwise store of kv scalars
    tot = scale(s.data[0][0], kv)
    if s.val is ZERO: return tot, ZERO
    v = s.val
    if v.op == "mload" and v.a[1] is s.off: return tot, load(v.a[0], D[0])
    return None


def own_of(s):
    return mload(s.base, s.off) if s.mat else load(s.base, s.off)


def fold(ss):
    """accumulation loops become sums: X[o] += t over inner loops is one store X[o] := X[o] + sum t; an earlier store to the
    same places in the same row order supplies the start value"""
    out = []
    for s in ss:
        if s.guards: out.append(s); continue
        own = [x for x in (load(s.base, s.off), mload(s.base, s.off)) if mentions(s.val, x)]
        t = sub(s.val, own[0]) if len(own) == 1 and not (s.val.op in COND) else None
        if t is None or mentions(t, s.base): out.append(s); continue
        inner = [k for k in range(len(s.data)) if not mentions(s.off, D[k])]
        keep = [k for k in range(len(s.data)) if k not in inner]
        if inner and (min(inner) < max(keep, default=-1)): out.append(s); continue
        if s.rep: out.append(s); continue
        data = list(s.data)
        for k in reversed(inner): t = sum_(D[k], data[k][0], t)
        data = [data[k] for k in keep]
        p = out[-1] if out else None
        q = None
        for x in reversed(out):
            if x.base is s.base: q = x; break
            if mentions(x.val, s.base): break
        if q is not None and q.off is s.off and q.data == data and not q.rep and not q.guards and q.mat is not None:
            q.val = add(q.val, t); q.mat = is_mat(q.val) or q.mat
            q.e = s.e
            continue
        s.val, s.data = add(own[0], t), data
        out.append(s)
    return out


def other_form(v, want):
    """the value reads some array scalar by scalar that the requirement reads block by block (or the reverse): the two are
    written at different levels and are not compared"""
    def acc(t):
        r = {}
        for x in walk(t):
            if x.op in ("load", "mload"): r.setdefault(x.a[0], set()).add(x.op)
        return r
    a, b = acc(v), acc(want)
    return any(k in b and not a[k] <= b[k] for k in a)


def initial(s):
    """an initial guess: the whole array set to zero or copied"""
    e = elementwise(s)
    return e is not None and (e[1] is ZERO or (e[1].op == "load" and e[1].a[1] is D[0]))


def content(s):
    """(n, stride, value by D0) of a store that defines a whole array in closed form"""
    if s.guards or len(s.data) != 1 or mentions(s.val, s.base) or opaque(s.val): return None
    k = coef_of(s.off, D[0])
    if k is None or numval(k) is None or sub(s.off, mul(k, D[0])) is not ZERO or numval(k) < 1: return None
    return s.data[0][0], int(numval(k)), s.val


ENTRY = mk("sym", "$entry")


def rowcontent(s):
    """(stride, row pointers, value by entry and row D0) of a store that defines all entries of the rows of a matrix"""
    if s.guards or s.rep or len(s.data) != 2 or mentions(s.val, s.base) or opaque(s.val): return None
    k = coef_of(s.off, D[1])
    if k is None or numval(k) is None or numval(k) < 1: return None
    lo = scale(sub(s.off, mul(k, D[1])), TM.Fraction(1, int(numval(k))))
    if lo.op != "load" or lo.a[1] is not D[0] or sub(s.data[1][0], sub(load(lo.a[0], add(D[0], ONE)), lo)) is not ZERO: return None
    v = subst(s.val, {D[1]: sub(ENTRY, lo)})
    if mentions(v, D[1]): return None
    return int(numval(k)), lo.a[0], v


def diagcol(t):
    """the diagonal entry of a row is in the column of that number"""
    out = {}
    for x in walk(t):
        if x.op == "load" and isinstance(x.a[1], T) and x.a[1].op == "load" and "bcolind" in str(x.a[0]) and str(x.a[1].a[0]) == str(x.a[0]).replace("bcolind", "diagind"): out[x] = x.a[1].a[1]
    return subst(t, out) if out else t


def rowread(x, o, c):
    """the value of the entry at offset o of an array with known rows, or None"""
    k, bp, v, same = c
    if (x.op == "load") != (k == 1): return None
    pos = o if k == 1 else scale(o, TM.Fraction(1, k))
    if any(q.denominator != 1 for q, _, _ in items(pos)): return None
    row = pos.a[1] if pos.op == "load" and "browptr" in str(bp) and str(pos.a[0]) == str(bp).replace("browptr", "diagind") else None
    if same and row is not D[0]: return None          # the other rows may not have been written yet
    if row is None and mentions(v, D[0]): return None
    return diagcol(subst(v, {ENTRY: pos, D[0]: row} if row is not None else {ENTRY: pos}))


def forward(t, cont, rows={}, same=()):
    """replace reads of arrays with known content by that content"""
    if not cont and not rows: return t
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        r = x
        if x.op in ("load", "mload") and x.a[0] in cont:
            n, k, v = cont[x.a[0]]
            o = go(x.a[1])
            if x.a[0] in same and o is not scale(D[0], k): r = rebuild(x, go)      # written by another iteration
            elif k == 1 and x.op == "load": r = subst(v, {D[0]: o})
            elif k == 1 and x.op == "mload":
                r = ZERO if v is ZERO else mload(v.a[0], subst(v.a[1], {D[0]: o})) if v.op == "load" and v.a[1] is D[0] else rebuild(x, go)
            elif k > 1 and x.op == "mload":
                q = scale(o, TM.Fraction(1, k))
                r = subst(v, {D[0]: q}) if all(c.denominator == 1 for c, _, _ in items(q)) else rebuild(x, go)
            else: r = rebuild(x, go)
        elif x.op in ("load", "mload") and x.a[0] in rows:
            r = rowread(x, go(x.a[1]), rows[x.a[0]])
            if r is None: r = rebuild(x, go)
        elif leaf(x): r = x
        else: r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


class Trace:
    """the canonical stores of successive calls on one object, with closed-form array contents carried along"""

    def __init__(self, keep=(), norm=None):
        self.keep = set(keep)
        self.norm = norm
        self.cont = {}
        self.rows = {}
        self.src = {}

    def feed(self, effs, keep=(), norm=None):
        out = []
        ss = merge_guarded([canon(e) for e in effs if e.kind == "store"])
        keep = self.keep | set(keep)
        norm = norm or self.norm
        for s in ss:
            if norm:
                s.val, s.off, s.guards = norm(s.val), norm(s.off), [norm(g) for g in s.guards]
                s.data = [(norm(n), d) for n, d in s.data]
            c = {b: v for b, v in self.cont.items() if b not in keep and b is not s.base}
            # an array may be replaced by its content only if that content does not read what is being written
            c = {b: v for b, v in c.items() if not mentions(v[2], s.base)}
            # ... and is not changed by a later store of a loop around the read
            mine = set(s.e.loops())
            for t in ss:
                if t is not s and t.base in c and mine.intersection(t.e.loops()):
                    k = self.src.get(t.base)
                    if t is not k and any(k is None or L not in k.e.loops() for L in mine.intersection(t.e.loops())): c.pop(t.base)
            same = {b for b in c if b in self.src and mine.issuperset(self.src[b].e.loops()) and self.src[b].e.loops()}
            rows = {}
            for b, (r, q) in self.rows.items():
                sh = mine.intersection(q.e.loops())
                if b is s.base or mentions(r[2], s.base) or len(sh) > 1 or (sh and sh != {q.e.loops()[0]}): continue
                if any(t.base is b and t is not q and mine.intersection(t.e.loops()) for t in ss): continue
                rows[b] = r + (bool(sh),)
            s.val = forward(s.val, c, rows, same)
            s.off = forward(s.off, c, rows, same)
            self.rows.pop(s.base, None)
            for b in [b for b, (r, q) in self.rows.items() if mentions(r[2], s.base)]: self.rows.pop(b)
            k = rowcontent(s)
            if k is not None: self.rows[s.base] = (k, s)
            k = content(s) if not mentions(s.val, s.base) else None
            if k is not None: self.cont[s.base], self.src[s.base] = k, s
            else: self.cont.pop(s.base, None)
            for b in [b for b, v in self.cont.items() if b is not s.base and mentions(v[2], s.base)]:
                self.cont.pop(b)
            out.append(s)
        return out


# ------------------------------------------------------------------ matrix model
class Mx:
    """terms over the matrix given to the factory, for one block size"""

    def __init__(self, bs, arr=matarr, n=None, base=MAT):
        self.bs, self.s = bs, bs * bs
        self.bp, self.ci, self.dg, self.va, self.be = [arr(x) for x in ("browptr", "bcolind", "diagind", "vals", "browendptr")]
        self.n = n if n is not None else mk("sym", mk("fld", base, "nbrows"))

    def rowptr(self, i): return load(self.bp, i)
    def diag(self, i): return load(self.dg, i)
    def col(self, j): return load(self.ci, j)
    def v(self, j, base=None): return self.blk(base if base is not None else self.va, j)

    def blk(self, base, j):
        return load(base, j) if self.bs == 1 else mload(base, scale(j, self.s))

    def seg(self, base, i):
        return load(base, i) if self.bs == 1 else mload(base, scale(i, self.bs))

    def so(self, i): return scale(i, self.bs)

    def dinv(self, i): return inv(self.v(self.diag(i)))

    def rowsum(self, lo, hi, x, base=None):
        """sum over entries lo <= j < hi of v_j * x[col_j]"""
        t = mk("sym", "$j")
        j = add(lo, t)
        return sum_(t, sub(hi, lo), mul(self.v(j, base), self.seg(x, self.col(j))))

    def lower(self, i, x, base=None): return self.rowsum(self.rowptr(i), self.diag(i), x, base)

    def upper(self, i, x, base=None):
        return self.rowsum(add(self.diag(i), ONE), load(self.bp, add(i, ONE)), x, base)


def diffterm(a, b):
    """short description of the difference of two values"""
    d = add(a, neg(b)) if not (a.op in COND or b.op in COND) else None
    return "found %s ; required %s" % (show(a), show(b))


def match(c, rule, inst, ss, spec, where=""):
    """the stores ss must be, in order, the phases of spec: [dict(base, n/data, off, val, rep, dir, name)]"""
    good = True
    for k, ph in enumerate(spec):
        nm = "%s: %s" % (inst, ph["name"])
        if k >= len(ss):
            c.bad(rule, nm, where, "this phase is missing (%d phases found, %d required)" % (len(ss), len(spec)))
            good = False
            continue
        s = ss[k]
        w = s.e.where()
        errs = []
        if ph.get("base") is not None and s.base is not ph["base"]:
            errs.append("writes %s, required %s" % (s.base, ph["base"]))
        if ph.get("elem"):      # whole-array elementwise phase
            ew = elementwise(s)
            if ew is None: errs.append("not an elementwise assignment of the whole array: %r" % s)
            else:
                if ew[0] is not ph["n"]: errs.append("covers %s elements, required %s" % (ew[0], ph["n"]))
                if ew[1] is not ph["val"]: errs.append("element value: " + diffterm(ew[1], ph["val"]))
        else:
            if [n for n, d in s.data] != [n for n, d in ph["data"]]:
                errs.append("iterates over %s, required %s" % ([n for n, d in s.data], [n for n, d in ph["data"]]))
            for (n, d), (n2, d2) in zip(s.data, ph["data"]):
                if d2 is not None and d != d2: errs.append("iterates %s, required %s" % ({1: "ascending", -1: "descending", 0: "irregularly"}[d], {1: "ascending", -1: "descending"}[d2]))
            if s.off is not ph["off"]: errs.append("position: " + diffterm(s.off, ph["off"]))
            vals = ph["val"] if isinstance(ph["val"], (list, tuple)) else [ph["val"]]
            if s.val not in vals: errs.append("value: " + diffterm(s.val, vals[0]))
            if set(s.guards) != set(ph.get("guards", ())): errs.append("only under condition %s" % s.guards)
        if ph.get("rep") is not None:
            reps = [n for n, L in s.rep]
            if reps != ph["rep"]: errs.append("repeated %s times, required %s" % (reps or "1", ph["rep"] or "1"))
        if errs:
            good = False
            vs = ph["val"] if isinstance(ph["val"], (list, tuple)) else [ph["val"]]
            kn = opaques(list(vs) + [ph.get("off"), ph.get("n")] + [n for n, _ in ph.get("data", ())])
            (c.und if s.opaque(kn) and not ph.get("strict") else c.bad)(rule, nm, w, "; ".join(errs))
        else: c.ok(rule, nm, w)
    for s in ss[len(spec):]:
        c.bad(rule, inst + ": extra update", s.e.where(), "unexpected further store %r" % s)
        good = False
    return good


def phases(ss, out):
    """the stores that matter to the arrays `out`: their own, and those of every array their values still refer to
    (arrays defined in closed form have been replaced by their content and drop out)"""
    want = set(out)
    written = {s.base for s in ss}
    while True:
        more = set()
        for s in ss:
            if s.base in want:
                for t in [s.val, s.off] + [n for n, _ in s.data]:
                    for x in walk(t):
                        if x.op in ("load", "mload") and x.a[0] in written and x.a[0] not in want: more.add(x.a[0])
        if not more: break
        want |= more
    return [s for s in ss if s.base in want]


SOLVEP = mk("obj", "sp")


def setparams(inst, ctol=None):
    """give the object symbolic relaxation parameters through its public setter"""
    I, st = inst.I, inst.st
    if ctol is not None: st.cells[mk("fld", SOLVEP, "ctol")] = TRUE if ctol else FALSE
    f = inst.p.method(inst.cls, "setApplyParams")
    if f is None: raise AnalysisBroken("setApplyParams not found")
    I.run(f, args={0: ("v", mk("rec", SOLVEP))}, this=inst.obj, cls=inst.cls, st=st)
    st.live, st.dead = [], None


MAXITS = mk("sym", mk("fld", SOLVEP, "maxits"))


def levels_of(ss):
    """the level-offset array used by level-scheduled stores: base whose entries bound the innermost loop"""
    for s in ss:
        if len(s.data) == 2:
            for x in walk(s.data[1][0]):
                if x.op == "load" and mentions(x.a[1], D[0]): return x.a[0]
    return None
