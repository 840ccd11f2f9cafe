"""A dynamics object next to one spectral element patch: the step functions are interpreted on symbolic states, metric
terms, column operators and derivative tables; the oracles evaluate the documented formulas at drawn values."""
from gll import *
import random, zlib, math
from c13 import draw, nval, close, patch, MEMO
from grid1d import Column

DYN = ("G", "dyn")


class Dyn(object):
    """dynamics object of class cls next to a patch of pcls."""

    def __init__(self, prog, c, cls, pcls, sw=False, symtab=True, udiff=False, xz=False, given=None, **kw):
        self.prog, self.c, self.cls = prog, c, cls
        if sw:
            kw.update(comps=3, dim=2, nlev=1)
        self.sw = sw
        self.P = P = patch(prog, c, pcls, **kw)
        n, nl = P.order, P.nlev
        self.n, self.nl = n, nl
        P.extra.append(self.hook)
        P.given.update({"m_fCartesianXZ": ("T",) if xz else ("F",), "m_dG": atom(("grav",)), "m_dCp": atom(("Cp",)), "m_dR": atom(("Rd",)), "m_dP0": atom(("P0",)), "m_fHasUniformDiffusion": ("T",) if udiff else ("F",),
                        "m_dScalarUniformDiffusionCoeff": atom(("nuS",)), "m_dVectorUniformDiffusionCoeff": atom(("nuV",))})
        P.given.update(given or {})
        self.xz = xz
        self.symtab = symtab
        self.G = P.F("GridPatch::m_grid")
        dc = P.I.dynclass
        P.I.dynclass = lambda p: cls if p == DYN else dc(p)
        ld = P.I.load_elem
        P.I.load_elem = lambda st, pl, tc: self.load(st, pl, tc, ld)
        if symtab:
            self.D = self.S = None
        else:
            K = Column(prog, c, n, 1, 2, "FiniteElement", "Lorenz")
            K.call("GridGLL::Initialize", vertical=False)
            self.D, self.S = K.array("GridGLL::m_dDxBasis1D", n, n), K.array("GridGLL::m_dStiffness1D", n, n)
            P.tables["m_dDxBasis1D"], P.tables["m_dStiffness1D"] = self.D, self.S
        self.eqtype = const(prog, "EquationSet::ShallowWaterEquations" if sw else "EquationSet::PrimitiveNonhydrostaticEquations")

    def load(self, st, pl, tc, ld):
        if pl[0] == "E" and pl[1][0] == "F":
            m = pl[1][2].split("::")[-1]
            if m == "m_iBegin":
                return ZERO
            if m == "m_iEnd":
                return num(self.ncol(pl[1][1][-1], 0))
            if m == "m_dCoeff":
                return atom(("op", pl[1][1][-1].split("::")[-1]) + tuple(pl[2]))
            if self.symtab and m in ("m_dDxBasis1D", "m_dStiffness1D"):
                if any(not (x.is_const() and 0 <= x.const() < self.n) for x in pl[2]):
                    raise AnalysisBroken("element %s of %s" % (pl[2], m))
                return atom((m,) + tuple(pl[2]))
        return ld(st, pl, tc)

    def ncol(self, op, out):
        """number of levels a column operator reads / writes."""
        m = op.split("::")[-1]
        a, _, b = m.partition("To")
        e = ("REdge" in b) if out else ("REdge" in a)
        return self.nl + (1 if e else 0)

    def hook(self, I, st, fr, n, key, q, place, args):
        if q == "Model::GetGrid":
            return ("ptr", self.G)
        if q.endswith("::GetType") and q.startswith("EquationSet"):
            return num(self.eqtype)
        if q.endswith("::GetRows") and place is not None and place[0] == "F" and place[2].endswith("::m_dCoeff"):
            return num(self.ncol(place[1][-1], 1))
        if q.startswith("FunctionTimer"):
            return ("opq", ("void",))
        return NotImplemented

    def member(self, name, v):
        self.P.st.store[("F", DYN, self.cls + "::" + name)] = v

    def call(self, q, args=None):
        f = self.prog.fn(self.cls + "::" + q) if isinstance(q, str) else q
        return self.P.call(f, args, this=DYN)

    def state(self, which, inst):
        return ("E", self.P.arr({"node": "m_datavecStateNode", "redge": "m_datavecStateREdge", "tracer": "m_datavecTracers"}[which]), (num(inst),))

    def snap(self, which, inst):
        """whole array of an instance as a dictionary."""
        a = self.state(which, inst)
        s = self.P.sizes.get(a)
        if s is None:
            return {}
        import itertools
        return dict((ix, self.P.get(a, *ix)) for ix in itertools.product(*[range(k) for k in s]))


class Env(object):
    """one draw of all symbolic values."""

    def __init__(self, D, seed, ranges):
        self.D = D
        MEMO.clear()
        self.env = draw(seed, ranges)
        self.env.update({("Cp",): 3.1, ("Rd",): 0.9, ("P0",): 1.15})

    def __call__(self, v):
        return nval(v, self.env)

    def tab(self, m, i, j):
        t = {"D": "m_dDxBasis1D", "S": "m_dStiffness1D"}[m]
        T = {"D": self.D.D, "S": self.D.S}[m]
        return self(atom((t, num(i), num(j)))) if T is None else float(T[i][j])

    def op(self, name, k, col):
        return sum(self(atom(("op", name, num(k), num(l)))) * v for l, v in enumerate(col))
