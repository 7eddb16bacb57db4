"""Which parallel regions surround the sweeps of a method, and what their clauses evaluate to."""
from lib import *


def sweeps(i, effs, meth):
    """the stores that make up the sweeps: those whose value reads, in the same loop iteration, other components"""
    return sweeps1(effs, False) or sweeps1(effs, True)


def sweeps1(effs, local):
    """in storage of the object or of the caller; where there is none of those, in local storage"""
    out = []
    for e in effs:
        if e.kind != "store" or not e.loops(): continue
        if e.base.op == "region" and not local: continue
        # a sweep store depends on a sum over a variable number of matrix entries
        if any(x.op in ("sum", "lc", "msum") or (x.op == "sum") for x in walk(e.val)) or any(mentions(L.n, L2.T) for L in e.loops() for L2 in e.loops() if L2 is not L):
            out.append(e)
    return out


def active(o):
    """does this region start threads: True, False or the condition"""
    if "parallel" not in o.d: return None
    cond = True
    for cl in o.cl:
        if cl["c"] == "if":
            v = cl.get("e")
            if v is FALSE or v is ZERO: return False
            if v is TRUE or (isinstance(v, T) and numval(v) not in (None, 0)): continue
            cond = v
        if cl["c"] == "num_threads":
            v = cl.get("e")
            if isinstance(v, T) and numval(v) == 1: return False
    return cond


def threaded(i, effs, meth):
    """(threaded?, where) of the sweeps of one call"""
    ss = sweeps(i, effs, meth)
    if not ss: return None, "?"
    verdicts = []
    for e in ss:
        os_ = e.omps()
        par = [active(o) for o in os_ if "parallel" in o.d]
        ws = any("for" in o.d.split() for o in os_)
        v = False
        for a in par:
            if a is True: v = True
            elif isinstance(a, T) and v is False: v = a
        if v is True and not ws: v = None      # every thread does everything
        verdicts.append((v, e.where()))
    vs = {v if not isinstance(v, T) else v for v, _ in verdicts}
    if len(vs) == 1: return verdicts[0]
    for v in verdicts:
        if v[0] is not True: return v
    return verdicts[0]
