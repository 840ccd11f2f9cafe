"""C10: direct stiffness summation gives coincident nodes their common mean, with velocities in the frame of the patch."""
from common import *
from absint import *
from funcs import Caller
from c03 import enum_value
from c06 import Geometry, ALL, SIDES, CORNERS
from c09 import const
import itertools

PB = "PatchBox::"
GR = ("G", "grid")
XN, YN = "GridPatchCSGLL::m_dXNode", "GridPatchCSGLL::m_dYNode"
TYPES = ["State", "Tracers", "Vorticity", "Divergence", "TopographyDeriv"]


def F_(n, o):
    return ("F", o, n)


class Patch(object):
    """A patch of given shape; neigh: panel by direction."""

    def __init__(self, name, na, nb, order, halo, panel, neigh, a0=0, b0=0):
        self.place = ("G", name)
        self.na, self.nb, self.order, self.halo, self.panel, self.neigh = na, nb, order, halo, panel, neigh
        self.a0, self.b0 = a0, b0
        self.sa, self.sb = na * order + 2 * halo, nb * order + 2 * halo


def setup_patch(I, st, prog, ctor, P):
    box = F_("GridPatch::m_box", P.place)
    args = dict(zip([p[1] for p in ctor.params], [num(P.panel), ZERO, num(P.halo), num(P.a0), num(P.a0 + P.na * P.order), num(P.b0), num(P.b0 + P.nb * P.order)]))
    path, facts = st.path, dict(st.facts)
    s, _ = run_function(I, ctor, box, args, st)
    s.path, s.facts = path, facts
    s.store[F_("GridPatchGLL::m_nElementCountA", P.place)] = num(P.na)
    s.store[F_("GridPatchGLL::m_nElementCountB", P.place)] = num(P.nb)
    s.store[F_("GridPatchGLL::m_nHorizontalOrder", P.place)] = num(P.order)
    return s


class World(object):
    """Interprets ApplyDSS on given patches with symbolic data."""

    def __init__(self, prog, c, cls, pcls, ctor, patches, locs, ntr, nlev, ntop):
        self.prog, self.c, self.cls, self.pcls, self.patches = prog, c, cls, pcls, patches
        self.locs, self.ntr, self.nlev = locs, ntr, nlev
        self.NODE, self.REDGE = enum_value(prog, "DataLocation_Node"), enum_value(prog, "DataLocation_REdge")
        self.dirs = {enum_value(prog, "Direction_" + d): d for d in ALL}
        self.ctor = ctor
        self.base = max(P.a0 // P.order + P.na for P in patches), max(P.b0 // P.order + P.nb for P in patches)
        self.staggering = const(prog, "Grid::VerticalStaggering_Lorenz")
        per = const(prog, "Grid::BoundaryCondition_Periodic")
        self.bc = {d: per for d in ALL}

    def arr(self, P, t, c, inst):
        """array, index prefix, extents and levels of component c of a data type."""
        if t == "State":
            redge = self.locs[c] == "REdge"
            a = ("E", F_("GridPatch::m_datavecStateREdge" if redge else "GridPatch::m_datavecStateNode", P.place), (num(inst),))
            return a, (num(c),), self.nlev + (1 if redge else 0)
        if t == "Tracers":
            return ("E", F_("GridPatch::m_datavecTracers", P.place), (num(inst),)), (num(c),), self.nlev
        if t == "TopographyDeriv":
            return F_("GridPatch::m_dataTopographyDeriv", P.place), (), 2
        return F_("GridPatch::m_data" + t, P.place), (), self.nlev

    def extents(self, a):
        for P in self.patches:
            if a == F_("GridPatch::m_dataTopographyDeriv", P.place):
                return (P.sa, P.sb, 2)
            for t in ("Vorticity", "Divergence"):
                if a == F_("GridPatch::m_data" + t, P.place):
                    return (P.sa, P.sb, self.nlev)
            if a[0] == "E" and a[1][0] == "F" and a[1][1] == P.place:
                q = a[1][2]
                if q.endswith("m_datavecStateNode"):
                    return (len(self.locs), P.sa, P.sb, self.nlev)
                if q.endswith("m_datavecStateREdge"):
                    return (len(self.locs), P.sa, P.sb, self.nlev + 1)
                if q.endswith("m_datavecTracers"):
                    return (self.ntr, P.sa, P.sb, self.nlev)
        return None

    def run(self, fn, dtype, inst, this=GR):
        prog = self.prog
        log = []
        bound = {}      # local array -> (array, prefix, extents)
        self.touched, self.bad, self.log = [], None, log

        sizes = {}

        def hook(I, st, fr, n, key, qual, place, args):
            q = qual or ""
            m = q.split("::")[-1]
            if q.startswith(("DataArray", "DataChunk")) and place is not None:
                ex = self.extents(place) or (sizes.get(place))
                if m == "SetSize":
                    sizes[place] = tuple(int(I.as_num(I.ev(x, st, fr)).const()) for x in args)
                    return ("opq", ("void",))
                if m == "AttachToData":
                    p = I.ev(args[0], st, fr)
                    if not (isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "E"):
                        raise AnalysisBroken("%s attaches to %s" % (fr.fn.qual, p))
                    a, pre = p[1][1], p[1][2]
                    full, mine = self.extents(a), sizes.get(place)
                    if full is None or mine is None:
                        raise AnalysisBroken("%s attaches to an array of unknown size" % fr.fn.qual)
                    k = len(full) - len(mine)
                    if mine != full[k:] or k < 0 or any(x != ZERO for x in pre[k:]):
                        self.bad = self.bad or "a view of %s values is attached to an array of %s" % (mine, full)
                        raise Stop()
                    bound.pop(place, None)
                    bound[place] = (a, pre[:k], mine)
                    self.touched.append((a, pre[:k]))
                    return ("opq", ("void",))
                if ex is not None and m == "GetSize":
                    return num(ex[int(I.as_num(I.ev(args[0], st, fr)).const())])
                if ex is not None and m in ("GetRows", "GetColumns", "GetSubColumns"):
                    return num(ex[["GetRows", "GetColumns", "GetSubColumns"].index(m)])
                return NotImplemented
            if m == "Exchange":
                v = [I.as_num(I.ev(a, st, fr)) for a in args]
                log.append(("exchange", v[0], v[1], len(self.touched)))
                return ("opq", ("void",))
            if m == "GetActivePatchCount":
                return num(len(self.patches))
            if m == "GetActivePatch":
                i = I.as_num(I.ev(args[0], st, fr))
                if not i.is_const() or not 0 <= i.const() < len(self.patches):
                    raise AnalysisBroken("active patch %s" % (i,))
                return ("ptr", self.patches[int(i.const())].place)
            if m in ("GetNeighborPanel",):
                P = [p for p in self.patches if p.place == place][0]
                return num(P.neigh[self.dirs[int(I.as_num(I.ev(args[0], st, fr)).const())]])
            if m == "GetVarLocation":
                i = int(I.as_num(I.ev(args[0], st, fr)).const())
                return num(self.REDGE if self.locs[i] == "REdge" else self.NODE)
            if q == "EquationSet::GetComponents":
                return num(len(self.locs))
            if q == "EquationSet::GetTracers":
                return num(self.ntr)
            if m == "GetABaseResolution":
                return num(self.base[0])
            if m == "GetBBaseResolution":
                return num(self.base[1])
            if m == "GetVerticalStaggering":
                return num(self.staggering)
            if m == "GetBoundaryCondition":
                return num(self.bc[self.dirs[int(I.as_num(I.ev(args[0], st, fr)).const())]])
            if m == "GetRElements":
                return num(self.nlev)
            if q in ("CubedSphereTrans::CoVecPanelTrans", "CubedSphereTrans::VecPanelTrans"):
                s, d = [I.as_num(I.ev(a, st, fr)) for a in args[:2]]
                pu, pv = I.lv(args[2], st, fr), I.lv(args[3], st, fr)
                x, y = [I.as_num(I.ev(a, st, fr)) for a in args[4:6]]
                u, v = I.load(st, pu, "f"), I.load(st, pv, "f")
                I.store_to(st, pu, atom((m, 0, s, d, u, v, x, y)), None)
                I.store_to(st, pv, atom((m, 1, s, d, u, v, x, y)), None)
                return ("opq", ("void",))
            return NotImplemented

        I = new_interp(prog, call_hook=hook)
        I.unroll = 40
        load, store = I.load_elem, I.store_to

        def through(pl):
            while pl[0] == "E" and pl[1] in bound:
                a, pre, ex = bound[pl[1]]
                if len(pl[2]) != len(ex) or any(not (x.is_const() and 0 <= x.const() < e) for x, e in zip(pl[2], ex)):
                    self.bad = self.bad or "node %s outside the array is accessed" % (tuple(str(x) for x in pl[2]),)
                    raise Stop()
                pl = ("E", a, pre + tuple(pl[2]))
            return pl
        I.load_elem = lambda st, pl, tc: load(st, through(pl), tc)
        I.store_to = lambda st, pl, v, node=None: store(st, through(pl), v, node)
        I.dynclass = lambda p: self.pcls if any(p == P.place for P in self.patches) else self.cls if p == GR else None
        st = State()
        for P in self.patches:
            st = setup_patch(I, st, prog, self.ctor, P)
        st.store[F_("GridGLL::m_nHorizontalOrder", GR)] = num(self.patches[0].order)
        st.store[("DS", F_("GridGLL::m_nHorizontalOrder", GR))] = num(self.patches[0].order)
        args = {}
        for p in fn.params:
            if "DataType" in p[2]:
                args[p[1]] = num(dtype)
            else:
                args[p[1]] = num(inst)
        try:
            s, _ = run_function(I, fn, this, args, st)
        except Stop:
            return None, I
        self.c.functions |= set(I.fnlog)
        return s, I


class Stop(Exception):
    pass


def classes(n, order, halo):
    """interior index -> the indices (with halo) of the nodes at the same place along one axis."""
    out = {}
    for e in range(n):
        for p in range(order):
            i = halo + e * order + p
            out[i] = [i]
            if p == 0:
                out[i] = [i - 1, i]
            if p == order - 1:
                out[i] = out[i] + [i + 1]
    return out


def expect(w, s, I, P, t, c, inst, closed=()):
    """-> first mismatch of the interior nodes of a component, or None."""
    a, pre, nl = w.arr(P, t, c, inst)
    H, sa, sb = P.halo, P.sa, P.sb
    ca, cb = classes(P.na, P.order, H), classes(P.nb, P.order, H)

    st0 = State()

    def init(ar, *ix):
        return I.load_elem(st0, ("E", ar, tuple(num(x) if not isinstance(x, Poly) else x for x in ix)), "f")

    def src(i, j, k):
        """value of a node before averaging, in the frame of the patch; None where no node exists."""
        da = 1 if i >= sa - H else -1 if i < H else 0
        db = 1 if j >= sb - H else -1 if j < H else 0
        d = [n for n in ALL if (SIDES[n] if n in SIDES else CORNERS[n]) == (da, db)]
        if not d:
            return init(a, *(pre + (i, j, k)))
        if any((SIDES[x] == (da, 0) or SIDES[x] == (0, db)) for x in closed if (da and SIDES[x][0] == da) or (db and SIDES[x][1] == db)):
            return None
        q = P.neigh[d[0]]
        if q == w.invalid:
            return None
        vec = (t == "State" and c in (0, 1)) or t == "TopographyDeriv"
        if not vec or q == P.panel:
            return init(a, *(pre + (i, j, k)))
        m = c if t == "State" else k
        u, v = (init(a, 0, i, j, k), init(a, 1, i, j, k)) if t == "State" else (init(a, i, j, 0), init(a, i, j, 1))
        return atom((w.trans, m, num(q), num(P.panel), u, v, init(F_(XN, P.place), i), init(F_(YN, P.place), j)))

    for i in ca:
        for j in cb:
            for k in range(nl):
                vals = [src(x, y, k) for x in ca[i] for y in cb[j]]
                vals = [v for v in vals if v is not None]
                want = ZERO
                for v in vals:
                    want = add(want, v)
                want = scale(want, Fraction(1, len(vals)))
                got = I.load_elem(s, ("E", a, pre + (num(i), num(j), num(k))), "f")
                if got != want:
                    return "node (%d, %d, %d) of component %d is not the mean of the %d coincident values" % (i - H, j - H, k, c, len(vals))
    return None


def run(c):
    prog = Program(sources())
    call = Caller(prog, c)
    W = lambda f: (f.file, f.line, f.qual)
    ctor = [f for f in prog.fns.values() if f.qual == "PatchBox::PatchBox" and len(f.params) == 7]
    if len(ctor) != 1:
        raise AnalysisBroken("PatchBox constructor not found")
    ctor = ctor[0]
    D_ = {d: enum_value(prog, "Direction_" + d) for d in ALL}
    invalid = const(prog, "InvalidPanel")
    dt = {t: enum_value(prog, "DataType_" + t) for t in TYPES}
    trans = "CoVecPanelTrans"

    def neigh(sides, panel=2):
        own = {"Right": 3, "Top": 4, "Left": 1, "Bottom": 5}
        n = {d: own[d] if d in sides else panel for d in SIDES}
        for d, (a, b) in CORNERS.items():
            adj = [s for s in sides if SIDES[s] in ((a, 0), (0, b))]
            n[d] = invalid if len(adj) == 2 else own[adj[0]] if adj else panel
        return n

    subsets = [s for k in range(5) for s in itertools.combinations(sorted(SIDES), k)]
    shapes = [(2, 1, 2), (1, 2, 3), (2, 3, 2), (1, 1, 4), (3, 2, 2)]
    if c.tier == "thorough":
        shapes += [(1, 1, 2), (3, 3, 3), (2, 2, 4)]
    locs, ntr = ["Node", "Node", "REdge"], 2

    def decide(cls, pcls, dfn, patches, t, label, inst=3, closed=(), bc=None):
        w = World(prog, c, cls, pcls, ctor, patches, locs, ntr, 2, 0)
        w.bc.update(bc or {})
        w.invalid, w.trans = invalid, trans
        s, I = w.run(dfn, dt[t], inst)
        key = "%s|%s|%s" % (cls, t, label)
        if w.bad or s is None:
            c.ob("mean", W(dfn), False, "%s %s %s: %s" % (cls, t, label, w.bad or "always refused"), "mean|" + key)
            return
        ex = [x for x in w.log if x[0] == "exchange"]
        ok = len(ex) == 1 and ex[0][1:] == (num(dt[t]), num(inst), 0)
        c.ob("fresh", W(dfn), ok, "%s %s %s: halos are exchanged once, for the same data, before they are used" % (cls, t, label), "fresh|" + key)
        bad = None
        ncomp = len(locs) if t == "State" else ntr if t == "Tracers" else 1
        for P in patches:
            for k in range(ncomp):
                bad = bad or expect(w, s, I, P, t, k, inst, closed)
        allowed = [w.arr(P, t, k, inst)[:2] for P in patches for k in range(ncomp)]
        for x in w.touched:
            if x not in allowed:
                bad = bad or "data of another field is averaged"
        n = sum(P.na * P.nb * P.order ** 2 for P in patches) * ncomp
        if closed:
            c.ob("closed", W(dfn), bad is None, "%s %s %s: nodes on a closed side take no part of values beyond it%s" % (cls, t, label, bad and ": " + bad or ""), "closed|" + key)
        else:
            c.ob("mean", W(dfn), bad is None, "%s %s, %s: %d nodes have the mean of their coincidence class%s" % (cls, t, label, n, bad and ": " + bad or ""), "mean|" + key)

    dfn = prog.fn("GridCSGLL::ApplyDSS")
    n = 0
    for t in TYPES:
        for sides in subsets:
            for sh in (shapes if c.tier == "thorough" else [shapes[n % len(shapes)], shapes[(n + 2) % len(shapes)]]):
                P = Patch("p", sh[0], sh[1], sh[2], 1, 2, neigh(sides))
                decide("GridCSGLL", "GridPatchCSGLL", dfn, [P], t, "%dx%d order %d on panel sides %s" % (sh + ("+".join(sides) or "none",)))
            n += 1
        Ps = [Patch("p", 1, 2, 2, 1, 2, neigh(("Right",))), Patch("q", 2, 1, 2, 1, 2, neigh(("Top", "Left")), 2, 4)]
        decide("GridCSGLL", "GridPatchCSGLL", dfn, Ps, t, "two patches")
    cfn = prog.fn("GridCartesianGLL::ApplyDSS")
    for t in TYPES:
        for sh in shapes:
            P = Patch("p", sh[0], sh[1], sh[2], 1, 0, {d: 0 for d in ALL})
            decide("GridCartesianGLL", "GridPatchCartesianGLL", cfn, [P], t, "%dx%d order %d" % sh)
        Ps = [Patch("p", 1, 2, 2, 1, 0, {d: 0 for d in ALL}), Patch("q", 2, 1, 2, 1, 0, {d: 0 for d in ALL}, 2, 4)]
        decide("GridCartesianGLL", "GridPatchCartesianGLL", cfn, Ps, t, "two patches")
    # closed sides of the plane have no node beyond them
    open_, slip, flux = [const(prog, "Grid::BoundaryCondition_" + x) for x in ("Periodic", "NoSlip", "NoFlux")]
    for side in SIDES:
        for t in ("State", "Tracers"):
            for bc in (slip, flux):
                P = Patch("p", 2, 2, 2, 1, 0, {d: 0 for d in ALL})
                decide("GridCartesianGLL", "GridPatchCartesianGLL", cfn, [P], t, side, closed=(side,), bc={side: bc})

    # data without a summation are refused
    for cls, pcls, f in (("GridCSGLL", "GridPatchCSGLL", dfn), ("GridCartesianGLL", "GridPatchCartesianGLL", cfn)):
        for name in ("RefState", "Auxiliary2D", "Jacobian", "Topography", "Latitude", "Z", "Pressure", "KineticEnergy"):
            P = Patch("p", 1, 1, 2, 1, 2, neigh(()))
            w = World(prog, c, cls, pcls, ctor, [P], locs, ntr, 2, 0)
            s, I = w.run(f, enum_value(prog, "DataType_" + name), 3)
            c.ob("refuse", W(f), s is None or not w.touched and any(t[0] == T for t in I.throws), "%s refuses to average data of type %s" % (cls, name), "refuse|%s|%s" % (cls, name))

    # who calls it
    def calls(qual, dtype, block):
        ev = []

        def hook(I, st, fr, n, key, q, place, args):
            m = (q or "").split("::")[-1]
            if m == "ApplyDSS":
                v = [I.as_num(I.ev(a, st, fr)) for a in args]
                ev.append(("dss", v[0].const(), v[1].const() if len(v) > 1 else num(dt["State"]).const(), st.path))
                return ("opq", ("void",))
            if q in ("Grid::ComputeVorticityDivergence", "Grid::EvaluateTestCase"):
                ev.append(("base", q.split("::")[-1], None, st.path))
                return ("opq", ("void",))
            return NotImplemented
        f = prog.fn(qual)
        I = new_interp(prog, call_hook=hook)
        st = State()
        st.store[F_("Grid::m_fBlockParallelExchange", GR)] = T if block else F
        args = {p[1]: num(dtype) if "DataType" in p[2] else num(7) for p in f.params if not is_ref(p[2])}
        s, _ = run_function(I, f, GR, args, st)
        c.functions.update(I.fnlog)
        return f, ev if all(e[3] == T for e in ev) else None

    for t in TYPES:
        f, ev = calls("GridGLL::PostProcessSubstage", dt[t], False)
        c.ob("wired", W(f), ev is not None and [e[:3] for e in ev] == [("dss", 7, dt[t])], "after a substage the updated instance of the updated data is averaged (%s)" % t, "wired|PostProcessSubstage|" + t)
    f, ev = calls("GridGLL::ComputeVorticityDivergence", None, False)
    names = [e[1] if e[0] == "base" else e[2] for e in ev or []]
    c.ob("wired", W(f), ev is not None and names[:1] == ["ComputeVorticityDivergence"] and sorted(names[1:]) == sorted([dt["Vorticity"], dt["Divergence"]]), "vorticity and divergence are computed, then averaged", "wired|ComputeVorticityDivergence")
    f, ev = calls("GridGLL::EvaluateTestCase", None, False)
    names = [e[1] if e[0] == "base" else e[2] for e in ev or []]
    c.ob("wired", W(f), ev is not None and names == ["EvaluateTestCase", dt["TopographyDeriv"]], "topography derivatives are averaged once the test case is evaluated", "wired|EvaluateTestCase")

    # what the patch knows of itself
    cs = [f for f in prog.fns.values() if f.qual == "GridPatchCSGLL::GridPatchCSGLL"]
    cg = [f for f in prog.fns.values() if f.qual == "GridPatchGLL::GridPatchGLL"]
    if len(cs) != 1 or len(cg) != 1:
        raise AnalysisBroken("patch constructors not found")
    G = Geometry(call)
    for ne, order, blocks in ((4, 2, (0, 2, 4)), (3, 4, (0, 3)), (6, 3, (0, 1, 4, 6))):
        for panel in range(6):
            bad = None
            nn = 0
            for a0, a1 in zip(blocks, blocks[1:]):
                for b0, b1 in zip(blocks, blocks[1:]):
                    def hook(I, st, fr, n, key, q, place, args):
                        if (q or "").endswith(("GetABaseResolution", "GetBBaseResolution")):
                            return num(ne)
                        if (q or "").endswith("GetRElements"):
                            return num(2)
                        return NotImplemented
                    I = new_interp(prog, call_hook=hook)
                    BX, PP = ("G", "box"), ("G", "p")
                    args = dict(zip([p[1] for p in ctor.params], [num(x) for x in (panel, 0, 1, a0 * order, a1 * order, b0 * order, b1 * order)]))
                    st, _ = run_function(I, ctor, BX, args, State())
                    I = new_interp(prog, call_hook=hook)
                    ar = {}
                    for p in cs[0].params:
                        ar[p[1]] = ("PLACE", GR) if "Grid " in p[2] else ("PLACE", BX) if "PatchBox" in p[2] else num(order if "Horiz" in p[1] else 1)
                    st, _ = run_function(I, cs[0], PP, ar, st)
                    c.functions.update(I.fnlog)
                    if st is None:
                        bad = bad or "refused"
                        continue
                    for nm, w_ in (("A", a1 - a0), ("B", b1 - b0)):
                        v = I.load(st, F_("GridPatchGLL::m_nElementCount" + nm, PP), "i")
                        nn += 1
                        if v != num(w_):
                            bad = bad or "%s elements along %s instead of %d" % (v, nm, w_)
                    N = ne
                    for d in ALL:
                        da, db = SIDES[d] if d in SIDES else CORNERS[d]
                        i = a1 if da > 0 else a0 - 1 if da < 0 else a0
                        j = b1 if db > 0 else b0 - 1 if db < 0 else b0
                        oi, oj = not 0 <= i < N, not 0 <= j < N
                        if oi and oj:
                            want = invalid
                        elif not (oi or oj):
                            want = panel
                        else:
                            side = ("Right" if i >= N else "Left") if oi else ("Top" if j >= N else "Bottom")
                            if (panel, side) not in G.cross:
                                bad = bad or "panel %d meets no single panel along its side %s" % (panel, side)
                                continue
                            want = G.cross[panel, side][0]
                        v = I.load_elem(st, ("E", F_("GridPatch::m_ixNeighborPanel", PP), (num(D_[d]),)), "i")
                        nn += 1
                        if v != num(want):
                            bad = bad or "panel %s towards %s of elements [%d,%d)x[%d,%d) instead of %s" % (v, d, a0, a1, b0, b1, want)
            c.ob("self", W(cs[0]), bad is None, "patches of panel %d of %dx%d elements order %d: element counts and neighbour panels (%d facts)%s" % (panel, ne, ne, order, nn, bad and ": " + bad or ""), "self|%d|%d" % (panel, ne))
    c.need("mean", 100)
    c.need("fresh", 100)
    c.need("self", 10)
    return c.finish("proof", "ApplyDSS and the halo transforms are interpreted on small patches with symbolic node values; the resulting values are compared exactly with the mean over each coincidence class.",
                    {"mean": "every interior node of every component and level has the mean of the values of all coincident nodes; vectors from another panel enter in the frame of the patch",
                     "fresh": "halos are exchanged once, for the data averaged, before they are used",
                     "closed": "nodes on a closed side take no part of values beyond it",
                     "refuse": "types of data without a summation are refused",
                     "wired": "summation follows every substage, vorticity/divergence and topography evaluation",
                     "self": "a patch knows its element counts and the panels around it"})
