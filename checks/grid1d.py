"""Constant propagation through GridGLL's initialisation of reference-element and column operators."""
from common import *
from absint import *
from ident import nval, Undefined
from c03 import enum_value
from c09 import const

TH = ("G", "grid")
LP = "LegendrePolynomial::"


class Singular(Undefined):
    pass


def solve(A, b):
    """exact solution of A x = b."""
    n = len(A)
    M = [list(r) + [v] for r, v in zip(A, b)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(M[r][i]))
        if M[k][i] == 0:
            raise Singular("the linear system solved is singular")
        M[i], M[k] = M[k], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [r[n] for r in M]


def number(v):
    if isinstance(v, Poly) and v.is_const():
        return v.const()
    if isinstance(v, Poly):
        return Fraction(nval(v, {}))
    raise Undefined("%s" % (v,))


def rnd(q):
    return Fraction(round(q * 2 ** 110), 2 ** 110)


class Column(object):
    """Interprets Initialize functions of a GridGLL with given constants."""

    def __init__(self, prog, c, horder, vorder, nlev, disc, stag, unroll=60):
        self.prog, self.c = prog, c
        self.horder, self.vorder, self.nlev = horder, vorder, nlev
        self.I = I = new_interp(prog, call_hook=self.hook)
        I.unroll = unroll
        self.sizes = {}
        self.vertical, self.stretch, self.only = True, None, None
        I.field_init = self.finit
        self.watch, self.out, self.seen = False, [], 0
        rd, wr = I.load_elem, I.store_to

        def load_elem(st, place, tc):
            self.inside(place, "read")
            return rd(st, place, tc)

        def store_to(st, place, v, n, *a):
            self.inside(place, "written")
            return wr(st, place, v, n, *a)
        I.load_elem, I.store_to = load_elem, store_to
        self.st = State()
        F = lambda n, o=TH: ("F", o, n)
        self.F = F
        self.disc = num(const(prog, "Grid::VerticalDiscretization_" + disc))
        self.stag = num(const(prog, "Grid::VerticalStaggering_" + stag))
        self.vals = {F("GridGLL::m_nHorizontalOrder"): num(horder), F("GridGLL::m_nVerticalOrder"): num(vorder), F("Grid::m_nRElements"): num(nlev)}

    def finit(self, pl, tc):
        if pl in self.vals:
            return self.vals[pl]
        if pl[0] == "F":
            if pl[2] == "$size":
                return num(self.sizes[pl[1]][0]) if pl[1] in self.sizes else None
            if pl[1][0] in ("DS",) or pl[2] in ():
                return None
        if pl[0] == "DS":
            m = pl[1][2].split("::")[-1]
            return {"m_nRElements": num(self.nlev), "m_eVerticalDiscretization": self.disc, "m_eVerticalStaggering": self.stag,
                    "m_nHorizontalOrder": num(self.horder), "m_nVerticalOrder": num(self.vorder)}.get(m)
        return None

    def size(self, place):
        if place in self.sizes:
            return self.sizes[place]
        if place[0] == "F":
            m = place[2].split("::")[-1]
            if m.endswith("Levels") or m == "m_dREtaLevelsNormArea":
                return (self.nlev,)
            if "Interfaces" in m:
                return (self.nlev + 1,)
        return None

    def inside(self, place, how):
        if not self.watch or place[0] != "E":
            return
        s = self.size(place[1])
        ix = place[2]
        if s is None or len(s) != len(ix) or not all(isinstance(i, Poly) and i.is_const() for i in ix):
            return
        self.seen += 1
        if any(not 0 <= i.const() < k for i, k in zip(ix, s)):
            self.out.append("element %s of %s, which has %s, is %s" % (tuple(int(i.const()) for i in ix), place[1][-1], s, how))

    def hook(self, I, st, fr, n, key, q, place, args):
        q = q or ""
        m = q.split("::")[-1]
        if q.startswith(("DataArray", "DataChunk")) and place is not None:
            if m in ("Allocate", "SetSize", "ctor"):
                if m == "ctor" and (not args or "Array" in str(args[0][1:3])):
                    return NotImplemented
                v = [I.as_num(I.ev(x, st, fr)) for x in args[:int(q[9])]]
                if not all(x.is_const() for x in v):
                    raise AnalysisBroken("size of %s in %s: %s" % (place, fr.fn.qual, v))
                self.sizes[place] = tuple(int(x.const()) for x in v)
                return NotImplemented
            if m in ("GetRows", "GetColumns"):
                s = self.size(place)
                if s is None and place[0] == "F" and place[2].startswith("LinearColumn"):
                    s = (0, 0)         # never allocated
                if s is None:
                    raise AnalysisBroken("size of %s unknown in %s" % (place, fr.fn.qual))
                return num(s[0 if m == "GetRows" else 1])
            if m == "IsAttached":
                return True
            if m in ("operator=", "Assign"):
                src = I.lv(args[0], st, fr)
                if self.size(src):
                    self.sizes[place] = self.size(src)
                return NotImplemented
        if q == "VerticalStretchFunction::operator()" and self.stretch:
            return I.invoke(self.prog.fn(self.stretch + "::operator()"), ("G", "stretch"), args if place is not None else args[1:], st, fr, n)
        if not self.vertical and q.startswith("LinearColumn") and place is not None and place[0] == "F" and place[1] == TH:
            return ("opq", ("void",))
        if self.only and q.startswith("LinearColumn") and place is not None and place[0] == "F" and place[1] == TH and place[2] not in self.only:
            return ("opq", ("void",))
        if q in ("Grid::Initialize", "LinearColumnIntFEM::InitializeNodeToNodeInterfaceMethod"):      # the latter is never applied
            return ("opq", ("void",))
        if m == "GetDimensionality":
            return num(3)
        if m == "GetComponents":
            return num(5)
        if q == "LAPACK::DGESV":
            A, B = I.lv(args[0], st, fr), I.lv(args[1], st, fr)
            k = self.size(B)[0]
            if self.size(A) != (k, k):
                raise AnalysisBroken("system size in %s: %s %s" % (fr.fn.qual, self.size(A), self.size(B)))
            ld = lambda a, ix: number(I.load_elem(st, ("E", a, tuple(num(i) for i in ix)), "f"))
            for i, v in enumerate(solve([[ld(A, (j, i)) for j in range(k)] for i in range(k)], [ld(B, (i,)) for i in range(k)])):
                I.store_to(st, ("E", B, (num(i),)), num(rnd(v)), None)
            return ZERO
        return NotImplemented

    def call(self, qual, vertical=True):
        f = self.prog.fn(qual)
        self.vertical = vertical
        path, facts = self.st.path, dict(self.st.facts)
        s, _ = run_function(self.I, f, TH, {}, self.st)
        self.c.functions.update(self.I.fnlog)
        if s is None:
            raise Undefined("%s refuses" % qual)
        s.path, s.facts = path, facts
        self.st = s
        return f

    def array(self, name, *shape):
        if len(shape) == 1:
            return [number(self.I.load_elem(self.st, ("E", self.F(name), (num(i),)), "f")) for i in range(shape[0])]
        return [[number(self.I.load_elem(self.st, ("E", self.F(name), (num(i), num(j))), "f")) for j in range(shape[1])] for i in range(shape[0])]

    def op(self, name):
        """coefficients of a column operator, restricted to the stored range as Apply does; None when not initialised."""
        o = self.F("GridGLL::" + name)
        C = ("F", o, "LinearColumnOperator::m_dCoeff")
        if C not in self.sizes:
            return None
        r, k = self.sizes[C]
        out = []
        for i in range(r):
            b, e = [int(number(self.I.load_elem(self.st, ("E", ("F", o, "LinearColumnOperator::" + x), (num(i),)), "i"))) for x in ("m_iBegin", "m_iEnd")]
            row = [number(self.I.load_elem(self.st, ("E", C, (num(i), num(j))), "f")) for j in range(k)]
            out.append((b, e, row))
        return out
