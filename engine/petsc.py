"""The C interface on top of PETSc: what the calls it makes to PETSc and to the factory do, as far as the checks need it."""
from lib import *

PREC = mk("heapobj", "preconditioner")
FACTORY = mk("obj", "factory")
LIST = mk("obj", "list")
PCV, RV, ZV, XV, WV, KSPV = (mk("obj", n) for n in ("pc", "r", "z", "x", "w", "ksp"))


def own(p, name):
    fs = [f for f in p.funcs.values() if "body" in f and f["n"] == name]
    return fs[0] if fs else None


def out(I, st, a, v, line):
    """*a = v"""
    if a.op == "ptr" and a.a[0].op == "cell": I.wrcell(st, a.a[0].a[0], v, line)
    elif a.op == "ptr": I.wrcell(st, a.a[0], v, line)


class Session:
    """one context, as the interface uses it; succeed: every call to PETSc returns 0"""

    def __init__(self, p, succeed=True, ctx=None, budget=900000, ptype=None, options=None):
        self.p = p
        init = {f["q"]: f["n"] for f in p.funcs.values() if f["n"] in ("getFactInitFromString", "getApplyInitFromString")}
        self.I, self.st = Interp(p, budget=budget, noinline=init if ptype is not None else ()), State()
        self.ctx = ctx or mk("obj", "ctx")
        self.n = 0
        m = self.I.models
        m["PCShellGetContext"] = self.getctx
        m["create_preconditioner"] = self.create
        m["compute"] = lambda I, st, vs, line: mk("rec", mk("obj", "precinfo"))
        if succeed: m["*"] = self.ok
        self.succeed = succeed
        # options: all given, with these values
        self.options = options or {}
        self.asked = {}
        if ptype is not None:
            m["solverTypeFromString"] = lambda I, st, vs, line: num(ptype)
            m["PetscOptionsGetString"] = lambda I, st, vs, line: self.option(st, vs, line, None, vs[5])
            m["PetscOptionsGetInt"] = m["PetscOptionsGetBool"] = m["PetscOptionsGetReal"] = lambda I, st, vs, line: self.option(st, vs, line, vs[3], vs[4])
            m["PetscOptionsGetIntArray"] = lambda I, st, vs, line: self.option(st, vs, line, vs[3], vs[5], vs[4])
            for q, n in init.items():
                m[q] = m["blasted::" + n] = m[n] = lambda I, st, vs, line, n=n: mk("call", n, vs[0])

    def option(self, st, vs, line, dst, flag, n=None):
        tag = str(vs[2]).strip('"')
        self.asked[tag] = vs
        v = self.options.get(tag)
        out(self.I, st, flag, ONE if v is not False else ZERO, line)
        if v is None or v is False or dst is None: return ZERO
        if n is not None:
            out(self.I, st, n, num(len(v)), line)
            for k, x in enumerate(v): self.I.wr(st, self.I.target(self.I.padd(dst, num(k)), "int"), x, "int", line)
        else: out(self.I, st, dst, v, line)
        return ZERO

    def ok(self, I, st, e, vs):
        return ZERO if e["t"] in ("PetscErrorCode", "int") and e["fn"].startswith(("Petsc", "PC", "KSP", "Mat", "Vec", "MPI")) else None

    def getctx(self, I, st, vs, line):
        out(I, st, vs[1], mk("ptr", self.ctx, ZERO), line)
        return ZERO

    def create(self, I, st, vs, line):
        self.n += 1
        b = mk("heapobj", "preconditioner%s" % ("" if self.n == 1 else self.n))
        I.effect(st, "alloc", line, base=b, val=ONE, name="new")
        return mk("ptr", b, ZERO)

    def call(self, name, *args):
        f = own(self.p, name)
        if f is None: raise AnalysisBroken("no function " + name)
        n = len(self.I.eff)
        self.st.dead, self.st.live = None, []
        self.ret = self.I.run(f, args={k: (("v", a) if a.op in ("ptr", "const", "sym", "poly", "call", "null") or not a.op == "obj" else ("v", mk("ptr", a, ZERO))) for k, a in enumerate(args)}, st=self.st)
        self.threw = self.st.dead == "throw"
        self.st.dead, self.st.live = None, []
        return self.I.eff[n:]
