"""One patch of a spectral element grid with its arrays, set up by interpreting the functions that size them."""
from common import *
from absint import *
from ident import nval, ncond, Undefined
from grid1d import number, solve, rnd
from c03 import enum_value
from c09 import const

PATCH = ("G", "patch")


class GllPatch(object):
    def __init__(self, prog, c, cls, na=1, nb=1, order=2, nlev=2, panel=2, a0=0, b0=0, base=(4, 4), comps=5, ntr=1, dim=3, stag="Lorenz", disc="FiniteElement", ninst=2, vorder=1, unroll=60):
        self.prog, self.c, self.cls = prog, c, cls
        self.na, self.nb, self.order, self.nlev, self.panel, self.base = na, nb, order, nlev, panel, base
        self.comps, self.ntr, self.dim, self.ninst = comps, ntr, dim, ninst
        self.sa, self.sb = na * order + 2, nb * order + 2
        self.cs = "CSGLL" in cls
        self.grid = "GridCSGLL" if self.cs else "GridCartesianGLL"
        self.locs = {0: "Node", 1: "Node", 2: "Node" if stag != "CharneyPhillips" and stag != "Lorenz" else "Node"}
        self.stag, self.disc = stag, disc
        self.NODE, self.REDGE = enum_value(prog, "DataLocation_Node"), enum_value(prog, "DataLocation_REdge")
        self.loc = lambda k: self.REDGE if (stag == "Lorenz" and k == 3) or (stag == "CharneyPhillips" and k in (2, 3)) else self.NODE
        self.sizes, self.locals, self.bound, self.bad = {}, {}, {}, None
        self.pushed = {}
        self.extra = []
        self.consts = {}
        self.I = I = new_interp(prog, call_hook=self.hook)
        I.unroll = unroll
        self._load, self._store = I.load_elem, I.store_to
        I.load_elem = lambda st, pl, tc: self.load(st, self.through(pl), tc)
        I.store_to = lambda st, pl, v, node=None: self._store(st, self.through(pl), v, node)
        I.dynclass = lambda p: cls if p == PATCH else self.grid if "m_grid" in str(p[-1]) else None
        I.field_init = self.finit
        self.st = State()
        self.given = {"m_dZtop": atom(("Ztop",)), "m_dEarthRadius": atom(("radius",)), "m_dOmega": atom(("Omega",)), "m_dRefLat": atom(("reflat",)), "m_fCartesianXZ": ("F",)}
        self.elements = {"m_dREtaLevels": "eta", "m_dREtaInterfaces": "etai", "m_dREtaLevelsNormArea": "area", "m_dREtaInterfacesNormArea": "areai", "m_dGDim": "ext"}
        self.tables, self.fold = {}, True
        ctor = [f for f in prog.fns.values() if f.qual == "PatchBox::PatchBox" and len(f.params) == 7]
        if len(ctor) != 1:
            raise AnalysisBroken("PatchBox constructor not found")
        box = self.F("GridPatch::m_box")
        args = dict(zip([p[1] for p in ctor[0].params], [num(panel), ZERO, num(1), num(a0 * order), num((a0 + na) * order), num(b0 * order), num((b0 + nb) * order)]))
        path, facts = self.st.path, dict(self.st.facts)
        s, _ = run_function(I, ctor[0], box, args, self.st)
        s.path, s.facts = path, facts
        self.st = s
        for n, v in (("m_nElementCountA", na), ("m_nElementCountB", nb), ("m_nHorizontalOrder", order), ("m_nVerticalOrder", vorder)):
            s.store[self.F("GridPatchGLL::" + n)] = num(v)
        s.store[self.F("GridPatch::m_fContainsData")] = ("F",)
        s.store[self.F("GridPatch::m_ixPatch")] = num(7)

    def F(self, n, o=PATCH):
        return ("F", o, n)

    def arr(self, n):
        return self.F("GridPatch::" + n)

    def finit(self, pl, tc):
        if pl in self.consts:
            return self.consts[pl]
        if pl[0] == "F" and pl[2] == "$size" and pl[1] in self.sizes:
            return num(self.sizes[pl[1]][0])
        if pl[0] in ("F", "DS"):
            m = (pl[2] if pl[0] == "F" else pl[1][2]).split("::")[-1]
            if m in self.given:
                return self.given[m]
            v = {"m_nRElements": self.nlev, "m_nHorizontalOrder": self.order}.get(m)
            if v is not None:
                return num(v)
        return None

    def load(self, st, pl, tc):
        if pl[0] == "E" and pl[1][0] == "F" and pl[1][1] != PATCH:
            m = pl[1][2].split("::")[-1]
            if m in self.elements and len(pl[2]) == 1:
                return atom((self.elements[m], pl[2][0]))
            if m in self.tables:
                v = self.tables[m]
                for x in pl[2]:
                    v = v[int(x.const())]
                return num(v)
        return self._load(st, pl, tc)

    def through(self, pl):
        while pl[0] == "E" and pl[1] in self.bound:
            a, pre, ex = self.bound[pl[1]]
            pl = ("E", a, pre + tuple(pl[2]))
        if pl[0] == "E":
            s = self.sizes.get(pl[1]) or self.locals.get(pl[1])
            ix = pl[2]
            if s is not None and len(s) == len(ix) and all(isinstance(x, Poly) and x.is_const() for x in ix):
                if any(not 0 <= x.const() < k for x, k in zip(ix, s)) and self.bad is None:
                    self.bad = "element %s outside of %s%s" % (tuple(int(x.const()) for x in ix), pl[1][-1], s)
        return pl

    def shape(self, place):
        return self.sizes.get(place) or self.locals.get(place)

    def hook(self, I, st, fr, n, key, q, place, args):
        q = q or ""
        m = q.split("::")[-1]
        for h in self.extra:
            r = h(I, st, fr, n, key, q, place, args)
            if r is not NotImplemented:
                return r
        void = ("opq", ("void",))
        if q.startswith("CubedSphereTrans::") and self.fold:
            return self.pure(I, st, fr, n, key, q, args)
        if q.startswith(("DataArray", "DataChunk")) and place is not None:
            if m in ("SetSize", "Allocate", "ctor"):
                if not args or (m == "ctor" and "Array" in str(args[0][1:3])):
                    return NotImplemented
                k = int(q[9])
                self.sizes[place] = tuple(int(I.as_num(I.ev(x, st, fr)).const()) for x in args[:k])
                return NotImplemented if m != "SetSize" else void
            if m in ("SetDataType", "SetDataLocation"):
                return void
            ex = self.shape(place)
            if m == "AttachToData":
                p = I.ev(args[0], st, fr)
                if not (isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "E"):
                    raise AnalysisBroken("%s attaches to %s" % (fr.fn.qual, p))
                pl = self.through(p[1])
                a, pre = pl[1], pl[2]
                k = len(self.shape(a)) - len(ex)
                self.bound[place] = (a, pre[:k], ex)
                return void
            if m == "IsAttached":
                return ("T",)
            if ex is not None and m == "GetSize":
                return num(ex[int(I.as_num(I.ev(args[0], st, fr)).const())])
            if ex is not None and m in ("GetRows", "GetColumns", "GetSubColumns"):
                return num(ex[["GetRows", "GetColumns", "GetSubColumns"].index(m)])
            if m in ("GetRows",) and place[0] == "F" and "m_dREta" in place[2]:
                return num(self.nlev + (1 if "Interfaces" in place[2] else 0))
            return NotImplemented
        if q.startswith("DataContainer::"):
            if m == "PushDataChunk":
                v = I.ev(args[0], st, fr)
                self.pushed.setdefault(place[-1], []).append(v[1] if isinstance(v, tuple) and v[0] == "ptr" else v)
            return void
        if q.startswith("MPI_") or m in ("MPI_Comm_rank",):
            return ZERO
        if m == "resize" and place is not None:
            return void
        if q == "EquationSet::GetDimensionality":
            return num(self.dim)
        if q == "EquationSet::GetComponents":
            return num(self.comps)
        if q == "EquationSet::GetTracers":
            return num(self.ntr)
        if m in ("GetComponentDataInstances", "GetTracerDataInstances"):
            return num(self.ninst)
        if m in ("GetUserData2DItemCount",):
            return ZERO
        if m == "GetABaseResolution":
            return num(self.base[0])
        if m == "GetBBaseResolution":
            return num(self.base[1])
        if m == "GetActivePatchCount":
            return num(1)
        if m == "GetActivePatch":
            return ("ptr", PATCH)
        if m == "GetVerticalStaggering":
            return num(const(self.prog, "Grid::VerticalStaggering_" + self.stag))
        if m == "GetVerticalDiscretization":
            return num(const(self.prog, "Grid::VerticalDiscretization_" + self.disc))
        if m == "GetVarLocation":
            return num(self.loc(int(I.as_num(I.ev(args[0], st, fr)).const())))
        if m == "GetVarsAtLocation":
            return num(sum(1 for k in range(self.comps) if self.loc(k) == int(I.as_num(I.ev(args[0], st, fr)).const())))
        if m == "GetRElements":
            return num(self.nlev)
        return NotImplemented

    def pure(self, I, st, fr, n, key, q, args):
        """a coordinate transform at a known point: fold the outputs to numbers."""
        f = self.prog.fns.get(key) or self.prog.fn(q)
        a, outs = {}, []
        for (pid, nm, t), x in zip(f.params, args):
            if is_ref(t) and "const" not in t:
                outs.append((nm, I.lv(x, st, fr), ("G", "out_" + nm)))
                a[nm] = ("PLACE", outs[-1][2])
            else:
                v = I.ev(x, st, fr)
                if isinstance(v, Poly):
                    v = num(rnd(Fraction(nval(v, {}))))
                a[nm] = v
        J = new_interp(self.prog)
        s, r = run_function(J, f, None, a, State())
        self.c.functions.update(J.fnlog)
        if s is None:
            raise Undefined("%s refuses %s" % (q, a))
        for nm, pl, o in outs:
            v = J.load(s, o, "f")
            I.store_to(st, pl, num(rnd(Fraction(nval(v, {})))) if not isinstance(v, tuple) or v[0] == "phi" else v, None)
        return r if outs == [] else ("opq", ("void",))

    def call(self, qual, args=None, this=PATCH):
        f = self.prog.fn(qual) if isinstance(qual, str) else qual
        path, facts = self.st.path, dict(self.st.facts)
        s, r = run_function(self.I, f, this, args or {}, self.st)
        self.c.functions.update(self.I.fnlog)
        if s is None:
            raise Undefined("%s refuses" % f.qual)
        s.path, s.facts = path, facts
        self.st = s
        return r

    def set(self, a, ix, v):
        self.I.store_to(self.st, ("E", a, tuple(num(i) for i in ix)), v if not isinstance(v, (int, Fraction)) else num(v), None)

    def get(self, a, *ix):
        return self.I.load_elem(self.st, ("E", a, tuple(num(i) for i in ix)), "f")
