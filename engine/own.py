"""Ownership of memory over a sequence of effects: every allocation is released once, by the matching routine, and not used afterwards."""
import itertools, re
from lib import *

MATCH = {"aligned_alloc": {"aligned_free"}, "malloc": {"free"}, "new": {"delete"}, "new[]": {"delete[]"}, "allocator": {"allocator"}}
MAXATOMS = 8


def atoms(t, out):
    if t is TRUE or t is FALSE: return out
    if t.op in ("and", "or"):
        for x in t.a[0]: atoms(x, out)
    elif t.op == "not": atoms(t.a[0], out)
    else: out.add(t)
    return out


def ev(t, m):
    if t is TRUE: return True
    if t is FALSE: return False
    if t.op == "and": return all(ev(x, m) for x in t.a[0])
    if t.op == "or": return any(ev(x, m) for x in t.a[0])
    if t.op == "not": return not ev(t.a[0], m)
    return m.get(t, True)


def pointers(v, g=()):
    """[(conditions, pointer value)] of a possibly conditional pointer"""
    if v.op == "ite":
        return pointers(v.a[1], g + (v.a[0],)) + pointers(v.a[2], g + (not_(v.a[0]),))
    return [(g, v)]


def sat(gs):
    """can these conditions hold together? Splits on the atoms they are made of"""
    return sat1(flat(gs), 0)


def part(t, m):
    """three-valued value of a condition under a partial valuation"""
    if t is TRUE: return True
    if t is FALSE: return False
    if t.op == "not":
        v = part(t.a[0], m)
        return None if v is None else not v
    if t.op == "and":
        r = [part(x, m) for x in t.a[0]]
        return False if False in r else None if None in r else True
    if t.op == "or":
        r = [part(x, m) for x in t.a[0]]
        return True if True in r else None if None in r else False
    return m.get(t)


def sat1(gs, d, m=None):
    m = m or {}
    while True:
        new = False
        rest = []
        for g in gs:
            v = part(g, m)
            if v is False: return False
            if v is True: continue
            a = g.a[0] if g.op == "not" else g
            if a.op not in ("and", "or", "not"): m[a] = g.op != "not"; new = True
            elif g.op == "and": rest += g.a[0]; new = True
            else: rest.append(g)
        gs = rest
        if not new: break
    if not gs: return True
    if d > 40: return True
    s = set()
    atoms(gs[0], s)
    s = sorted((x for x in s if x not in m), key=lambda t: t.id)
    return any(sat1(gs, d + 1, dict(m, **{}) | {s[0]: b}) for b in (True, False))


def conds(e): return [x.c for x in e.ctx if isinstance(x, If)] + [c for c, k in e.live]


def loops(e): return tuple(x for x in e.ctx if isinstance(x, Loop))


class Ev:
    __slots__ = ("kind", "base", "off", "how", "g", "e", "lp")


def root(loc):
    while isinstance(loc, T) and loc.op in ("fld", "elem", "cell", "region") and isinstance(loc.a[0], T): loc = loc.a[0]
    return loc


def events(effs, owned=(), mine=None):
    """allocation, release, holding and use events of a sequence of effects"""
    out = []
    seen = set(owned)
    at = {}

    def put(kind, base, e, off=None, how=None, g=()):
        x = Ev()
        x.kind, x.base, x.off, x.how, x.e, x.lp = kind, base, off, how, e, loops(e)
        x.g = tuple(conds(e)) + tuple(g)
        out.append(x)
    for e in effs:
        if e.kind == "alloc":
            if e.base.op in ("heap", "heapobj"): put("alloc", e.base, e, how=e.name); seen.add(e.base)
        elif e.kind == "free":
            for g, v in pointers(e.val):
                if v.op == "null": continue
                if v.op == "ptr": put("free", v.a[0], e, v.a[1], e.name, g)
                else: put("free", v, e, None, e.name, g)
        elif e.kind in ("store", "read", "fill", "call"):
            bs = {e.base} if e.base is not None else set()
            for a in (e.args or []):
                if isinstance(a, T) and a.op == "ptr": bs.add(a.a[0])
            for b in bs:
                if b.op in ("heap", "heapobj") or b in seen: put("use", b, e)
        elif e.kind == "throw": put("throw", None, e)
        if mine is not None and e.kind == "set" and root(e.base) in mine:
            if e.base in at:
                for b in at.pop(e.base): put("drop", b, e, e.base)
            if isinstance(e.val, T):
                bs = [v.a[0] for g, v in pointers(e.val) if v.op == "ptr" and (v.a[0].op in ("heap", "heapobj") or v.a[0] in seen)]
                for b in bs: put("hold", b, e, e.base)
                at[e.base] = bs
    return out


def flat(gs):
    out = []
    for g in gs:
        if g.op == "and": out += flat(g.a[0])
        elif g is not TRUE: out.append(g)
    return out


def run(evs, m, b, owned, escaped, scoped):
    """typestate of block b under one valuation of the conditions: ([(rule, event, message)], acquired?, where acquired if still held)"""
    live = (None, "aligned_alloc") if owned else None
    gone, out, had = None, [], owned
    holders, held = set(), False
    for x in evs:
        if not all(ev(g, m) for g in x.g): continue
        if x.kind == "alloc":
            if live: out.append(("leak", x, "allocated again while the previous block is not released"))
            live, gone, had = (x, x.how), None, True
        elif x.kind == "hold": holders.add(x.off); held = True
        elif x.kind == "drop": holders.discard(x.off)
        elif x.kind == "use":
            if gone is not None: out.append(("use-after-release", x, "used after its release at %s" % gone.e.where()))
        elif x.kind == "throw":
            if live and live[0] is not None and not held and b not in escaped and not scoped: out.append(("leak", x, "the exception leaves the block allocated at %s unreleased" % live[0].e.where()))
            if gone is not None and holders: out.append(("release", x, "the exception leaves %s pointing to the block released at %s" % (", ".join(sorted(map(str, holders))), gone.e.where())))
            return out, had, None
        else:
            if live:
                a, how = live
                live, gone = None, x
                if x.off is not None and x.off is not ZERO: out.append(("release", x, "releases %s, not the start of the block" % show(x.off)))
                if x.how not in MATCH.get(how, ()): out.append(("deallocator", x, "releases with %s what %s allocated" % (x.how, how)))
                if [L for L in x.lp if a is None or L not in a.lp]: out.append(("release", x, "releases the block in every iteration of a loop"))
                elif a is not None and [L for L in a.lp if L not in x.lp]: out.append(("leak", a, "allocated in every iteration of a loop but released once"))
            elif gone is not None: out.append(("release", x, "released a second time (first at %s)" % gone.e.where()))
            elif x.how != "delete" or had: out.append(("release", x, "released before it is acquired"))
    return out, had, live


def foreign(x):
    b = x.base
    if any(y.op in ("uninit", "uninitp") for y in walk(b)): return "release", "releases an uninitialised pointer"
    if opaque(b) or b.op in ("opq", "load", "call") or any(y.op == "opq" or y.op == "call" for y in walk(b)): return "?", "not followed: %s" % show(b)
    return "release", "releases memory this operation did not acquire (%s)" % show(b)


def lifetimes(c, inst, effs, where, owned=(), keep=(), final=True, mine=None, borrowed=True):
    """decide all rules over the effects; owned: blocks owned from the start; keep: blocks handed to the caller;
    mine: objects that outlive an exception, which may go on holding blocks; borrowed: releasing unknown memory is an error"""
    evs = events(effs, owned, mine)
    blocks = []
    for x in evs:
        if x.kind == "alloc" and x.base not in blocks: blocks.append(x.base)
    found = []
    ok = []
    for b in list(owned) + [b for b in blocks if b not in owned]:
        mine_ = [x for x in evs if x.base is b]
        al = [x for x in mine_ if x.kind == "alloc"]
        first = evs.index(al[0]) if al and b not in owned else 0
        rel = [x for x in evs[first:] if x.base is b or x.kind == "throw"]
        # seen from where the block exists: what must hold for it to be acquired is given
        given = {t: True for t in flat(al[0].g)} if al and b not in owned else {}
        given = {(k.a[0] if k.op == "not" else k): (k.op != "not") for k in given}
        at = set()
        for x in rel:
            if x.kind in ("use", "hold", "drop"): continue
            for g in x.g: atoms(g, at)
        at = sorted(at - set(given), key=lambda t: t.id)
        und = None
        if len(at) > MAXATOMS: at, und = at[:MAXATOMS], "%d conditions" % len(at)
        scoped = any(x.kind == "free" and x.e.scope for x in mine_)
        bad = {}
        for vals in itertools.product((True, False), repeat=len(at)):
            m = dict(zip(at, vals)); m.update(given)
            out, had, live = run(rel, m, b, b in owned, keep, scoped)
            thrown = any(x.kind == "throw" and all(ev(g, m) for g in x.g) for x in rel)
            if final and not thrown:
                if live and b not in keep: out.append(("leak", live[0], "never released"))
                if b in keep and not live and had:
                    x = next((x for x in rel if x.kind == "free" and all(ev(g, m) for g in x.g)), None)
                    if x is not None: out.append(("release", x, "released although it is handed to the caller"))
            for r, x, msg in out: bad.setdefault((r, msg), (x, m))
        for (r, msg), (x, m) in bad.items(): found.append((r, b, x, msg, und))
        if not bad: ok.append((b, und))
    known = set(blocks) | set(owned)
    if borrowed:
        seen = set()
        for x in evs:
            if x.kind == "free" and x.base not in known and x.base not in seen:
                seen.add(x.base)
                r, msg = foreign(x)
                found.append((r, x.base, x, msg, None))
    for r, b, x, msg, und in found:
        w = x.e.where() if x is not None else where
        nm = "%s: %s" % (inst, re.sub(r":\d+\)", ")", show(b)))
        if r == "?": c.und("release", nm, w, msg)
        elif und: c.und(r, nm, w, msg + " (" + und + ")")
        else: c.bad(r, nm, w, msg)
    for b, und in ok:
        if und: c.und("once", "%s: %s" % (inst, show(b)), where, und)
        else: c.ok("once", "%s: %s" % (inst, show(b)), where)
    frees = [x for x in evs if x.kind == "free"]
    if frees and not found: c.ok("matching", inst, where)
    if not known and not found: c.ok("nothing-held", inst, where)
