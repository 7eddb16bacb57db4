"""Entry-point models: a preconditioner built by the factory from symbolic settings, then computed and applied."""
from frontend import Program, AnalysisBroken
from interp import *

PT = {"jacobi": 0, "gs": 1, "sgs": 2, "ilu0": 3, "seqilu0": 4, "sfilu0": 5, "sapilu0": 6, "cscbgs": 7, "level_sgs": 8,
      "async_level_ilu0": 9, "none": 10}
MAT = mk("obj", "A")       # the matrix given to the factory
SET = mk("obj", "opts")    # the settings given to the factory
R, Z = mk("obj", "r"), mk("obj", "z")


def one(prog, suffix, nparm=None, pred=None):
    fs = [f for f in prog.funcs.values() if f["q"] == suffix and "body" in f and (nparm is None or len(f["params"]) == nparm) and (pred is None or pred(f))]
    if len(fs) != 1:
        raise AnalysisBroken("expected one definition of %s, found %d" % (suffix, len(fs)))
    return fs[0]


def matarr(name):
    """base of one of the arrays of the matrix given to the factory"""
    return mk("deref", mk("fld", mk("fld", MAT, name), "data"))


class Inst:
    """a preconditioner object made by the factory under given settings"""

    def __init__(self, prog, prec, bs, stor, budget=400000, presets=None, **settings):
        self.p = prog
        self.name = "%s/bs%d/%s%s" % (prec, bs, "col" if stor == 0 else "row", "".join(",%s=%s" % kv for kv in sorted(settings.items())))
        I = self.I = Interp(prog, budget=budget)
        I.preset.update(presets or {})
        st = self.st = State()
        for k, v in dict(prectype=PT[prec], bs=bs, blockstorage=stor, **settings).items():
            loc = mk("fld", SET, k)
            I.preset[loc] = (TRUE if v else FALSE) if isinstance(v, bool) else num(v) if not isinstance(v, T) else v
        f = one(prog, "blasted::SRFactory<double, int>::create_preconditioner", 2)
        I.dyn[SET] = "blasted::AsyncSolverSettings"
        r = I.run(f, args={0: ("lv", MAT), 1: ("lv", SET)}, cls=f["cls"], st=st, this=mk("obj", "factory"))
        self.created = list(I.eff)
        self.res = r
        self.obj = r.a[0] if r is not None and r.op == "ptr" and r.a[0].op == "heapobj" else None
        self.dead = st.dead
        self.cls = I.dyn.get(self.obj) if self.obj is not None else None
        self.bs = bs

    def call(self, name, *args):
        """effects of one method call on the current state"""
        f = self.p.method(self.cls, name)
        if f is None or "body" not in f: raise AnalysisBroken("no method %s in %s" % (name, self.cls))
        n = len(self.I.eff)
        a = {i: ("v", mk("ptr", b, ZERO)) for i, b in enumerate(args)}
        self.st.dead = None
        r = self.I.run(f, args=a, this=self.obj, cls=self.cls, st=self.st)
        self.st.live = []
        self.ret = r
        self.threw = self.st.dead == "throw"
        self.st.dead = None
        return self.I.eff[n:]


def info_region(i):
    """the array of floating-point diagnostics in the PrecInfo last returned by i.compute()"""
    if i.ret is None or i.ret.op != "rec": return None
    v = i.st.cells.get(mk("fld", i.ret.a[0], "f_info"))
    return v.a[0] if v is not None and v.op == "vec" else None
