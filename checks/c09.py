"""C09: patches tile the grid, every patch belongs to one process, every neighbour is found and connected."""
from common import *
from absint import *
from funcs import Caller, value
from ident import nval, ncond, Undefined
from c03 import enum_value
from c06 import Geometry, SIDES, CORNERS, ALL
import itertools, stdmodel

PB = "PatchBox::"
G = ("G", "grid")
N_, A_, B_, H_ = atom(("ord",)), atom(("A",)), atom(("B",)), atom(("H",))


def F_(n, o=G):
    return ("F", o, n)


BOXES = F_("Grid::m_aPatchBoxes")
ORDER = ("in", ("DS", F_("GridGLL::m_nHorizontalOrder")))


def const(prog, qual):
    g = prog.globals.get(qual)
    if g is None or not g.get("const"):
        raise AnalysisBroken("constant %s not found" % qual)
    I = new_interp(prog)
    v = I.as_num(I.ev(g["init"], State(), None))
    return int(v.const())


def run(c):
    prog = Program(sources())
    W = lambda f: (f.file, f.line, f.qual)
    D = dict((d, enum_value(prog, "Direction_" + d)) for d in ALL)

    def base(I, st, fr, n, key, qual, place, args):
        q = qual or ""
        if q.endswith("::GetABaseResolution"):
            return A_
        if q.endswith("::GetBBaseResolution"):
            return B_
        if q == "Model::GetHaloElements":
            return H_
        return NotImplemented

    # ---- the box and its derived ranges
    ctor = [f for f in prog.fns.values() if f.qual == "PatchBox::PatchBox" and len(f.params) == 7]
    if len(ctor) != 1:
        raise AnalysisBroken("PatchBox constructor not found")
    ctor = ctor[0]
    BX = ("G", "box")
    names = ["panel", "level", "halo", "a0", "a1", "b0", "b1"]
    I = new_interp(prog)
    bst, _ = run_function(I, ctor, BX, dict((p[1], atom((x,))) for p, x in zip(ctor.params, names)), State())
    g = dict((x, atom((x,))) for x in names)
    wa, wb, h = sub(g["a1"], g["a0"]), sub(g["b1"], g["b0"]), g["halo"]
    h2 = scale(h, 2)
    want = {"GetPanel": g["panel"], "GetRefinementLevel": g["level"], "GetHaloElements": h,
            "GetAGlobalBegin": sub(g["a0"], h), "GetAGlobalEnd": add(g["a1"], h), "GetBGlobalBegin": sub(g["b0"], h), "GetBGlobalEnd": add(g["b1"], h),
            "GetAGlobalInteriorBegin": g["a0"], "GetAGlobalInteriorEnd": g["a1"], "GetBGlobalInteriorBegin": g["b0"], "GetBGlobalInteriorEnd": g["b1"],
            "GetATotalWidth": add(wa, h2), "GetBTotalWidth": add(wb, h2), "GetTotalNodes": mul(add(wa, h2), add(wb, h2)), "GetTotalNodeCount2D": mul(add(wa, h2), add(wb, h2)),
            "GetInteriorPerimeter": add(scale(wa, 2), scale(wb, 2)), "GetAInteriorBegin": h, "GetBInteriorBegin": h, "GetAInteriorEnd": add(h, wa), "GetBInteriorEnd": add(h, wb),
            "GetAInteriorWidth": wa, "GetBInteriorWidth": wb}

    def boxget(name, place, st):
        I = new_interp(prog)
        s, r = run_function(I, prog.fn(PB + name), place, {}, st.fork())
        c.functions |= set(I.fnlog)
        return r
    for m, w in sorted(want.items()):
        f = prog.fn(PB + m)
        r = boxget(m, BX, bst)
        c.ob("box", W(f), equal(r, w) if isinstance(r, Poly) else None, "%s of a patch with the given interior range and halo" % m, "box|" + m)
    cgp = prog.fn(PB + "ContainsGlobalPoint")
    I = new_interp(prog)
    pn = [p[1] for p in cgp.params]
    s, r = run_function(I, cgp, BX, dict(zip(pn, (atom(("p",)), atom(("x",)), atom(("y",))))), bst.fork())
    bad = None
    try:
        for p, x, y in itertools.product((0, 1), range(1, 8), range(1, 8)):
            env = {("panel",): 1, ("level",): 0, ("halo",): 1, ("a0",): 3, ("a1",): 5, ("b0",): 2, ("b1",): 6, ("p",): p, ("x",): x, ("y",): y}
            if (value(r, env) != 0) != (p == 1 and 3 <= x < 5 and 2 <= y < 6):
                bad = (p, x, y)
        ok = bad is None
    except Undefined:
        ok = None
    c.ob("box", W(cgp), ok, "contains exactly the points of its panel and interior range%s" % (bad and ": wrong at panel %d (%d,%d) of panel 1 [3,5)x[2,6)" % bad or ""), "box|contains")

    # ---- the layouts tile every panel
    iq = prog.fn("ISqrt")
    for n in range(0, 50 if c.tier == "quick" else 400):
        I = new_interp(prog)
        I.unroll = 40
        s, r = run_function(I, iq, None, {iq.params[0][1]: num(n)}, State())
        ok = isinstance(r, Poly) and r.is_const() and r.const() >= 0 and r.const() ** 2 <= n < (r.const() + 1) ** 2
        c.ob("tile", W(iq), ok if isinstance(r, Poly) and r.is_const() else None, "integer square root of %d" % n, "isqrt|%d" % n)

    def layout(cls, count, xz=False):
        f = prog.fn(cls + "::ApplyDefaultPatchLayout")

        def hook(I, st, fr, n, key, qual, place, args):
            if (qual or "").endswith("::GetIsCartesianXZ"):
                return T if xz else F
            return base(I, st, fr, n, key, qual, place, args)
        I = new_interp(prog, call_hook=hook)
        I.unroll = 40
        st = State()
        st.store[("DS", F_("Grid::m_nInitializedPatchBoxes"))] = ZERO
        st.store[("DS", F_("Grid::m_nMaxPatchCount"))] = num(max(count, 6) if "CS" in cls else count)
        s, r = run_function(I, f, G, {f.params[0][1]: num(count)}, st)
        c.functions |= set(I.fnlog)
        return f, I, s

    def boxes(s, k):
        out = []
        for i in range(k):
            pl = ("E", BOXES, (num(i),))
            out.append(dict((m, boxget(m, pl, s)) for m in ("GetPanel", "GetRefinementLevel", "GetHaloElements", "GetAGlobalInteriorBegin", "GetAGlobalInteriorEnd", "GetBGlobalInteriorBegin", "GetBGlobalInteriorEnd")))
        return out

    cases = [("GridCSGLL", n, False) for n in ((1, 2, 5, 6, 7, 12, 23, 24, 54, 60) if c.tier == "quick" else (1, 2, 3, 5, 6, 7, 8, 12, 23, 24, 25, 53, 54, 60, 95, 96, 150))]
    cases += [("GridCartesianGLL", n, xz) for n in ((1, 2, 3, 4, 5, 8) if c.tier == "quick" else range(1, 13)) for xz in (False, True)]
    for cls, count, xz in cases:
        f, I, s = layout(cls, count, xz)
        tag = "%s|%d|%s" % (cls, count, xz)
        lab = "%s for %d processes%s" % (cls, count, " (x-z)" if xz else "")
        if s is None:
            c.ob("tile", W(f), False, lab + ": no layout is ever produced", "tile|" + tag)
            continue
        k = I.load(s, ("DS", F_("Grid::m_nInitializedPatchBoxes")), "i")
        if not (isinstance(k, Poly) and k.is_const()):
            c.ob("tile", W(f), None, lab + ": number of patches not resolved", "tile|" + tag)
            continue
        k = int(k.const())
        bs = boxes(s, k)
        panels = 6 if "CS" in cls else 1
        c.ob("tile", W(f), k <= max(count, 6 if "CS" in cls else 1) and k >= panels, lab + ": %d patches fit the table of patches" % k, "tile|%s|count" % tag)
        m = 0
        for ne, nb, order in itertools.product((1, 2, 3, 4, 5, 6, 8, 12), (1, 2, 3, 6), (2, 4)):
            if "CS" in cls:
                if nb != 1:
                    continue
                nb_ = ne
            else:
                nb_ = nb
            env = {("A",): ne, ("B",): nb_, ("H",): 1}

            def star(t, order=order):
                if t == ORDER:
                    return order
                return None
            env["*"] = star
            try:
                if any(ncond(t[0], env) for t in I.throws):
                    continue
                R = [dict((kk, nval(v, env)) for kk, v in b.items()) for b in bs]
            except Undefined as e:
                c.ob("tile", W(f), None, "%s: %s" % (lab, e))
                break
            m += 1
            bad = None
            cover = {}
            for i, b in enumerate(R):
                a0, a1, b0, b1 = [int(b[x]) for x in ("GetAGlobalInteriorBegin", "GetAGlobalInteriorEnd", "GetBGlobalInteriorBegin", "GetBGlobalInteriorEnd")]
                if b["GetHaloElements"] != 1 or b["GetRefinementLevel"] != 0:
                    bad = bad or "patch %d has another halo width or refinement level" % i
                if any(x % order for x in (a0, a1, b0, b1)):
                    bad = bad or "patch %d cuts elements" % i
                if a0 >= a1 or b0 >= b1:
                    bad = bad or "patch %d is empty" % i
                if not (0 <= a0 and a1 <= ne * order and 0 <= b0 and b1 <= nb_ * order and 0 <= b["GetPanel"] < panels):
                    bad = bad or "patch %d leaves the panel" % i
                    continue
                for x in range(a0, a1):
                    for y in range(b0, b1):
                        kk = (b["GetPanel"], x, y)
                        if kk in cover:
                            bad = bad or "node %s lies in patches %d and %d" % (kk, cover[kk], i)
                        cover[kk] = i
            if len(cover) != panels * ne * order * nb_ * order:
                bad = bad or "%d of %d nodes lie in no patch" % (panels * ne * order * nb_ * order - len(cover), panels * ne * order * nb_ * order)
            c.ob("tile", W(f), bad is None, "%s, %d x %d elements of order %d%s" % (lab, ne, nb_, order, bad and ": " + bad or ""), "tile|%s|%d|%d|%d" % (tag, ne, nb_, order))
        if m == 0 and count <= 6:
            c.ob("tile", W(f), False, lab + ": refused at every resolution", "tile|%s|never" % tag)

    # ---- every patch is owned by exactly one process, which creates it
    f = prog.fn("Grid::DistributePatches")
    K = 4
    for rows in (K, K + 2):
        made = []

        def hook(I, st, fr, n, key, qual, place, args):
            q = qual or ""
            if q in ("MPI_Comm_size", "MPI_Comm_rank"):
                v = I.ev(args[1], st, fr)
                I.store_to(st, v[1] if v[0] == "ptr" else v, atom((q,)), n)
                return ZERO
            if q.endswith("::NewPatch"):
                v = I.as_num(I.ev(args[0], st, fr))
                st.event("new", v)
                return ("ptr", ("G", "patch", repr(v)))
            if q.endswith("::InitializeDataLocal"):
                st.event("init", place)
                return ("opq", ("void",))
            if q == "Grid::GetPatchCount":
                return num(K)
            if q.endswith("::GetRows") and place == BOXES:
                return num(rows)
            return NotImplemented
        I = new_interp(prog)
        stdmodel.enable(I, hook)
        ACT, IDX = F_("Grid::m_vecActiveGridPatches"), F_("Grid::m_vecActiveGridPatchIndices")
        def fi(pl, tc):
            if pl[0] != "F":
                return None
            if pl == ("DS", F_("Grid::m_nInitializedPatchBoxes")):
                return num(K)
            if pl[1] in (ACT, IDX) and pl[2] == "$size":
                return ZERO
            if pl[1] == BOXES and pl[2] != "$data":
                return num(rows)
            return None
        I.field_init = fi
        s, r = run_function(I, f, G, {}, State())
        c.functions |= set(I.fnlog)
        if s is None:
            c.ob("owner", W(f), False, "DistributePatches never returns", "owner|returns")
            continue
        ev = [(e, cd, lp) for e, cd, lp in flatten(trace_list(s.trace)) if e[0] in ("new", "init")]
        bad = None
        n_ = 0
        for size in (1, 2, 3, 4, 5, 7):
            own = {}
            for rank in range(size):
                env = {("MPI_Comm_size",): size, ("MPI_Comm_rank",): rank}
                try:
                    mine = [int(nval(e[1], env)) for e, cd, lp in ev if e[0] == "new" and ncond(cd, env)]
                    ini = [e[1] for e, cd, lp in ev if e[0] == "init" and ncond(cd, env)]
                    table = [nval(I.load(s, ("E", F_("Grid::m_vecPatchProcessor"), (num(i),)), "i"), env) for i in range(K)]
                    na = int(nval(I.load(s, F_("$size", ACT), "i"), env))
                    ni = int(nval(I.load(s, F_("$size", IDX), "i"), env))
                    idx = [int(nval(I.load(s, ("E", IDX, (num(j),)), "i"), env)) for j in range(ni)]
                except Undefined as e:
                    bad = bad or "?%s" % e
                    continue
                if na != len(mine) or idx != mine or len(ini) != len(mine):
                    bad = bad or "process %d of %d creates %s, lists %s, initialises %d" % (rank, size, mine, idx, len(ini))
                for i in mine:
                    if i in own:
                        bad = bad or "patch %d is created on processes %d and %d" % (i, own[i], rank)
                    own[i] = rank
                    if not 0 <= i < K:
                        bad = bad or "process %d of %d creates patch %d, but the layout has only %d" % (rank, size, i, K)
                    elif table[i] != rank:
                        bad = bad or "patch %d is created on process %d, the table says %d" % (i, rank, table[i])
                n_ += 1
            if sorted(own) != list(range(K)):
                bad = bad or "with %d processes the patches created are %s" % (size, sorted(own))
        c.ob("owner", W(f), None if bad and bad[0] == "?" else bad is None, "each of %d patches (table of %d) created on exactly the process recorded as its owner%s" % (K, rows, bad and ": " + bad or ""), "owner|%d" % rows)
    c.need("owner", 2)

    # ---- which patch a node index belongs to
    caller = Caller(prog, c)
    geo = Geometry(caller)
    PER, NOF, INV = [const(prog, q) for q in ("Grid::BoundaryCondition_Periodic", "Grid::BoundaryCondition_NoFlux", "GridPatch::InvalidIndex")]
    for cls in ("GridCSGLL", "GridCartesianGLL"):
        f = prog.fn(cls + "::GetPatchFromCoordinateIndex")
        p = [x[1] for x in f.params]
        V = {}
        for nm in p[1:5]:
            V[nm] = ("G", "arr_" + nm)
        combos = [None] if "CS" in cls else list(itertools.product((PER, NOF), repeat=2))
        for bc in combos:
            # three patches with symbolic boxes, two queried points
            NP, NQ = 3, 2
            st = State()
            I0 = new_interp(prog)
            for k in range(NP):
                st, _ = run_function(I0, ctor, ("E", BOXES, (num(k),)), dict((pp[1], atom((x, k)) if x != "halo" else ONE) for pp, x in zip(ctor.params, names)), st)
            boxst = dict(((k, pl[2]), v) for k in range(NP) for (pl, v) in list(st.store.items()) if pl[0] == "F" and pl[1] == ("E", BOXES, (num(k),)))
            for nm, t in zip(p[1:4], ("x", "y", "p")):
                for q in range(NQ):
                    I0.store_to(st, ("E", V[nm], (num(q),)), atom((t, q)), None)

            def hook(I, st, fr, n, key, qual, place, args):
                q = qual or ""
                if q == "Grid::GetPatchCount":
                    return num(NP)
                if q.endswith("::GetRows"):
                    return num(NQ)
                return base(I, st, fr, n, key, qual, place, args)
            I = new_interp(prog, call_hook=hook)
            if bc:
                for d, v in (("Right", bc[0]), ("Left", bc[0]), ("Top", bc[1]), ("Bottom", bc[1])):
                    I0.store_to(st, ("E", F_("Grid::m_eBoundaryCondition"), (num(D[d]),)), num(v), None)
            for nm in V:
                I.place_types[V[nm]] = "DataArray1D<int>"
            st.store[("DS", F_("Grid::m_nInitializedPatchBoxes"))] = num(NP)
            args = dict((nm, ("PLACE", V[nm])) for nm in V)
            args[p[0]], args[p[5]] = ZERO, num(NQ)
            s, r = run_function(I, f, G, args, st)
            c.functions |= set(I.fnlog)
            if s is None:
                c.ob("lookup", W(f), False, "%s: never returns" % cls, "lookup|%s|returns" % cls)
                continue
            out = [I.load(s, ("E", V[p[4]], (num(q),)), "i") for q in range(NQ)]
            order, ne, nb = 2, 2, (2 if "CS" in cls else 3)
            na, nbn = order * ne, order * nb
            # patch tables: three of the patches of a layout, so that some nodes are in none
            if "CS" in cls:
                tabs = [[(0, 0, 2, 0, 4), (0, 2, 4, 0, 4), (3, 0, 4, 0, 4)], [(1, 0, 4, 0, 4), (4, 0, 4, 0, 2), (4, 0, 4, 2, 4)], [(5, 0, 4, 0, 4), (2, 0, 4, 0, 2), (0, 0, 4, 0, 4)]]
            else:
                tabs = [[(0, 0, 2, 0, 6), (0, 2, 4, 0, 4), (0, 2, 4, 4, 6)], [(0, 0, 4, 0, 2), (0, 0, 4, 2, 4), (0, 0, 4, 4, 6)]]
            for tab in tabs:
                pts = []
                panels = range(6) if "CS" in cls else (0,)
                for pp in panels:
                    for x in range(-1, na + 1):
                        for y in range(-1, nbn + 1):
                            pts.append((pp, x, y))
                bad = None
                n_ = 0

                def expect(pt):
                    pp, x, y = pt
                    if "CS" in cls:
                        w = geo.cell(pp, na, x, y)
                        if w is None:
                            return INV
                    else:
                        if not 0 <= x < na:
                            if bc[0] != PER:
                                return INV
                            x %= na
                        if not 0 <= y < nbn:
                            if bc[1] != PER:
                                return INV
                            y %= nbn
                        w = (0, x, y)
                    for k, t in enumerate(tab):
                        if t[0] == w[0] and t[1] <= w[1] < t[2] and t[3] <= w[2] < t[4]:
                            return k
                    return INV
                import random
                rnd = random.Random(7)
                pairs = [(a, rnd.choice(pts)) for a in pts]
                held = [a for a in pts if expect(a) != INV]
                pairs = pairs[::3] if c.tier == "quick" else pairs
                for k in range(len(tab)):
                    own = [a for a in pts if expect(a) == k]
                    for _ in range(8):
                        pairs.append((rnd.choice(own), rnd.choice(own)))
                        pairs.append((rnd.choice(own), rnd.choice(held)))
                        pairs.append((rnd.choice(pts), rnd.choice(own)))
                if c.tier == "thorough":
                    pairs += [(rnd.choice(pts), rnd.choice(pts)) for _ in range(1500)]
                for pair in pairs:
                    env = {("A",): ne, ("B",): nb}
                    for k, t in enumerate(tab):
                        env.update({("panel", k): t[0], ("level", k): 0, ("a0", k): t[1], ("a1", k): t[2], ("b0", k): t[3], ("b1", k): t[4]})
                    for q, (pp, x, y) in enumerate(pair):
                        env.update({("x", q): x, ("y", q): y, ("p", q): pp})

                    def star(t, env=env):
                        if t == ORDER:
                            return order
                        if isinstance(t, tuple) and t[0] == "in" and t[1][0] == "F" and t[1][1][0] == "E" and t[1][1][1] == BOXES:
                            # a box selected by a computed index
                            k = nval(t[1][1][2][0], env)
                            if not 0 <= k < NP:
                                return 0
                            v = boxst.get((int(k), t[1][2]))
                            return nval(v, env) if v is not None else None
                        return None
                    env["*"] = star
                    try:
                        wants = [expect(pt) for pt in pair]
                        thr = any(ncond(t[0], env) for t in I.throws)
                        if thr:
                            # a grid whose patches cover everything finds every node
                            if all(w != INV for w in wants):
                                bad = bad or "refused for %s" % (pair,)
                            continue
                        got = [nval(o, env) for o in out]
                    except Undefined as e:
                        bad = bad or "?%s" % e
                        break
                    n_ += 1
                    if got != wants:
                        bad = bad or "panel, A, B = %s then %s with patches %s gives %s instead of %s" % (pair[0], pair[1], tab, got, wants)
                c.ob("lookup", W(f), None if bad and bad[0] == "?" else bad is None, "%s%s: the patch that holds a node or its continuation across an edge (%d lookups)%s" %
                     (cls, " periodic %s" % (tuple(b == PER for b in bc),) if bc else "", n_, bad and ": " + bad or ""), "lookup|%s|%s|%d" % (cls, bc, tabs.index(tab)))
    c.need("lookup", 10)

    # ---- the connections of a patch
    f = prog.fn("Grid::InitializeExchangeBuffersFromPatch")
    SIDE_OF = {"Right": lambda a, b, w, v: a == w, "Left": lambda a, b, w, v: a == -1, "Top": lambda a, b, w, v: b == v, "Bottom": lambda a, b, w, v: b == -1}
    for (wa_, wb_) in ((2, 3), (4, 2)) if c.tier == "quick" else ((1, 1), (2, 3), (4, 2), (3, 5)):
        for kind in ("one", "open", "split", "cornerless"):
            A0, B0, HH = 8, 12, 1
            reg = []
            rng = {}

            def owner(x, y):
                """neighbouring patch of a node just outside."""
                x, y = x - A0, y - B0
                ox = -1 if x < 0 else 1 if x >= wa_ else 0
                oy = -1 if y < 0 else 1 if y >= wb_ else 0
                if kind == "open" and oy == -1:
                    return INV
                if kind == "cornerless" and ox == 1 and oy == 1:
                    return INV
                if kind == "split" and ox == 0 and oy == 1 and x >= wa_ - 1 and wa_ > 1:
                    return 40
                if kind == "split" and oy == 0 and ox == -1 and y >= 1 and wb_ > 1:
                    return 41
                return 20 + 3 * ox + oy

            def hook(I, st, fr, n, key, qual, place, args):
                q = qual or ""
                if q.endswith("::GetPatchFromCoordinateIndex"):
                    va, vb, vp, out = [I.obj_place(args[i], st, fr) for i in (1, 2, 3, 4)]
                    ln = I.as_num(I.ev(args[5], st, fr)) if len(args) > 5 else None
                    ln = int(ln.const()) if ln is not None and ln.is_const() else -1
                    pts = []
                    for i in range(max(ln, 0)):
                        v = [I.load(st, ("E", z, (num(i),)), "i") for z in (va, vb, vp)]
                        if not all(isinstance(z, Poly) and z.is_const() for z in v):
                            raise AnalysisBroken("perimeter node %d not resolved" % i)
                        a, b, pp = [int(z.const()) for z in v]
                        pts.append((pp, a, b))
                        I.store_to(st, ("E", out, (num(i),)), num(owner(a, b)), n)
                    rng["pts"] = pts
                    return ("opq", ("void",))
                if q == "Grid::RegisterExchangeBuffer":
                    v = [I.ev(a, st, fr) for a in args]
                    reg.append((st.path, [int(x.const()) if isinstance(x, Poly) and x.is_const() else None for x in v]))
                    return ("opq", ("void",))
                if q == "Grid::GetPatchBox":
                    return ("obj", BX)
                return NotImplemented
            st = State()
            I = new_interp(prog)
            st, _ = run_function(I, ctor, BX, dict((pp[1], num(v)) for pp, v in zip(ctor.params, (3, 0, HH, A0, A0 + wa_, B0, B0 + wb_))), st)
            I = new_interp(prog, call_hook=hook)
            I.unroll = 20
            I.place_types[BX] = "PatchBox"
            s, r = run_function(I, f, G, {f.params[0][1]: num(5)}, st)
            c.functions |= set(I.fnlog)
            tag = "%s, %d x %d nodes" % (kind, wa_, wb_)
            key = "connect|%s|%d|%d" % (kind, wa_, wb_)
            if s is None:
                c.ob("connect", W(f), False, "%s: never returns (%s)" % (tag, ["%s:%d" % t[1][:2] for t in I.throws][:2]), key)
                continue
            ring = set((3, x, y) for x in range(A0 - 1, A0 + wa_ + 1) for y in range(B0 - 1, B0 + wb_ + 1) if not (A0 <= x < A0 + wa_ and B0 <= y < B0 + wb_))
            pts = rng.get("pts", [])
            c.ob("connect", W(f), len(pts) == len(ring) and set(pts) == ring, "%s: every node around the patch is looked up once" % tag, key + "|ring")
            if any(None in v for _, v in reg):
                c.ob("connect", W(f), None, "%s: connection not resolved" % tag)
                continue
            # what is sent: node next to the boundary -> (direction, patch)
            got = {}
            bad = None
            NMD = dict((v, k) for k, v in D.items())
            for path, v in reg:
                if path != T:
                    bad = bad or "conditional registration"
                d = NMD.get(v[2])
                if v[0] != 5 or d is None:
                    bad = bad or "source %s direction %s" % (v[0], v[2])
                    continue
                if v[1] == INV:
                    continue
                if len(v) == 3:
                    v = v + ([HH, HH + wb_] if d in ("Right", "Left") else [HH, HH + wa_] if d in SIDES else
                             [HH + wa_ - 1 if "Right" in d else HH, HH + wb_ - 1 if "Top" in d else HH])
                if d in SIDES:
                    if v[3] >= v[4]:
                        bad = bad or "empty segment"
                    for k in range(v[3], v[4]):
                        nd = {"Right": (HH + wa_ - 1, k), "Left": (HH, k), "Top": (k, HH + wb_ - 1), "Bottom": (k, HH)}[d]
                        got.setdefault((nd, d), []).append(v[1])
                else:
                    got.setdefault(((v[3], v[4]), d), []).append(v[1])
            exp = {}
            for x in range(wa_):
                for y in range(wb_):
                    for d, (dx, dy) in ALL.items():
                        nx, ny = x + dx, y + dy
                        if 0 <= nx < wa_ and 0 <= ny < wb_:
                            continue
                        o = owner(A0 + nx, B0 + ny)
                        if o == INV:
                            continue
                        if d in CORNERS:
                            # the diagonal neighbour is already reached along the side unless another patch begins there
                            ox, oy = (nx < 0 or nx >= wa_), (ny < 0 or ny >= wb_)
                            if not (ox and oy):
                                straight = owner(A0 + (nx if ox else x), B0 + (ny if oy else y))
                                if straight == o:
                                    continue
                        exp.setdefault(((x + HH, y + HH), d), []).append(o)
            if got != exp:
                k_ = sorted(set(got) ^ set(exp) or [k for k in got if got[k] != exp.get(k)], key=repr)[0]
                bad = bad or "node %s towards %s: connected to %s instead of %s" % (k_[0], k_[1], got.get(k_), exp.get(k_))
            c.ob("connect", W(f), bad is None, "%s: every boundary node is connected once to each adjacent patch%s" % (tag, bad and ": " + bad or ""), key)
    c.need("connect", 10)
    for nm in ("Grid::InitializeExchangeBuffersFromActivePatches",):
        f = prog.fn(nm)
        seen = []

        def hook(I, st, fr, n, key, qual, place, args):
            if qual == "Grid::InitializeExchangeBuffersFromPatch":
                st.event("init", I.as_num(I.ev(args[0], st, fr)))
                return ("opq", ("void",))
            return NotImplemented
        I = new_interp(prog)
        stdmodel.enable(I, hook)
        I.field_init = lambda pl, tc: num(3) if pl[0] == "F" and pl[2] == "$size" else None
        s, r = run_function(I, f, G, {}, State())
        ev = [(e[1], cd, lp) for e, cd, lp in flatten(trace_list(s.trace)) if e[0] == "init"] if s is not None else []
        w = [atom(("in", ("E", F_("Grid::m_vecActiveGridPatchIndices"), (num(i),)))) for i in range(3)]
        ok = len(ev) == 3 and all(cd == T and not lp for _, cd, lp in ev) and sorted(repr(x[0]) for x in ev) == sorted(repr(I.load(State(), ("E", F_("Grid::m_vecActiveGridPatchIndices"), (num(i),)), "i")) for i in range(3))
        c.ob("connect", W(f), ok, "the connections of every patch of this process are set up once", "connect|active")

    # ---- the patch a coordinate belongs to
    for cls in ("GridCSGLL", "GridCartesianGLL"):
        f = prog.fn(cls + "::ConvertReferenceToPatchCoord")
        p = [x[1] for x in f.params]
        V = dict((nm, ("G", "arr_" + nm)) for nm in p)
        NP = 3
        st = State()
        I0 = new_interp(prog)
        for k in range(NP):
            st, _ = run_function(I0, ctor, ("E", BOXES, (num(k),)), dict((pp[1], atom((x, k)) if x != "halo" else ONE) for pp, x in zip(ctor.params, names)), st)

        def hook(I, st, fr, n, key, qual, place, args):
            q = qual or ""
            if q == "Grid::GetPatchCount":
                return num(NP)
            if q.endswith("::GetRows"):
                return ONE
            if q == "CubedSphereTrans::ABPFromRLL":
                V2 = [I.as_num(I.ev(a, st, fr)) for a in args[:2]]
                st.event("rll", V2)
                for a, t in zip(args[2:], ("al", "be", "pn")):
                    I.store_to(st, I.lv(a, st, fr), atom((t,)), n)
                return ("opq", ("void",))
            return base(I, st, fr, n, key, qual, place, args)
        I = new_interp(prog, call_hook=hook)
        for nm in V:
            I.place_types[V[nm]] = "DataArray1D<int>" if nm == p[4] else "DataArray1D<double>"
        I0.store_to(st, ("E", V[p[0]], (ZERO,)), atom(("lon",)), None)
        I0.store_to(st, ("E", V[p[1]], (ZERO,)), atom(("lat",)), None)
        s, r = run_function(I, f, G, dict((nm, ("PLACE", V[nm])) for nm in V), st)
        c.functions |= set(I.fnlog)
        if s is None:
            c.ob("locate", W(f), False, cls + ": never returns", "locate|%s|returns" % cls)
            continue
        cs = "CS" in cls
        al, be = [I.load(s, ("E", V[p[i]], (ZERO,)), "f") for i in (2, 3)]
        pt = I.load(s, ("E", V[p[4]], (ZERO,)), "i")
        if cs:
            ev = [e[1] for e, cd, lp in flatten(trace_list(s.trace)) if e[0] == "rll"]
            import math
            ok = None
            if len(ev) == 1:
                try:
                    ok = abs(nval(ev[0][0], {("lon",): 90.0, ("lat",): 30.0}) - math.pi / 2) < 1e-12 and abs(nval(ev[0][1], {("lon",): 90.0, ("lat",): 30.0}) - math.pi / 6) < 1e-12
                except Undefined:
                    ok = None
            c.ob("locate", W(f), ok, "longitude and latitude in degrees are converted to radians", "locate|degrees")
            c.ob("locate", W(f), al == atom(("al",)) and be == atom(("be",)), "the panel coordinates are those of the point", "locate|cs|coord")
        else:
            c.ob("locate", W(f), al == atom(("lon",)) and be == atom(("lat",)), "coordinates of the plane are used as they are", "locate|cart|coord")
        import math, random
        rnd = random.Random(3)
        order = 4
        bad = None
        n_ = 0
        tabs = [[(0, 0, 8, 0, 16), (0, 8, 16, 0, 16), (3, 0, 16, 0, 16)], [(4, 0, 16, 0, 8), (4, 0, 16, 8, 16), (1, 0, 16, 0, 16)]] if cs else \
               [[(0, 0, 8, 0, 24), (0, 8, 16, 0, 12), (0, 8, 16, 12, 24)], [(0, 0, 16, 0, 8), (0, 0, 16, 8, 16), (0, 0, 16, 16, 24)]]
        for tab in tabs:
            for _ in range(60 if c.tier == "quick" else 600):
                pn = rnd.choice(range(6)) if cs else 0
                dim = (-math.pi / 4, math.pi / 4, -math.pi / 4, math.pi / 4) if cs else (-3.0, 5.0, 10.0, 31.0)
                u, v = rnd.random(), rnd.random()
                x, y = dim[0] + u * (dim[1] - dim[0]), dim[2] + v * (dim[3] - dim[2])
                na, nbn = 16, 16 if cs else 24
                env = {("A",): na // order, ("B",): nbn // order, ("al",): x, ("be",): y, ("pn",): pn, ("lon",): x, ("lat",): y}
                for k, t in enumerate(tab):
                    env.update({("panel", k): t[0], ("level", k): 0, ("a0", k): t[1], ("a1", k): t[2], ("b0", k): t[3], ("b1", k): t[4]})

                def star(t):
                    if t == ORDER:
                        return order
                    if not isinstance(t, tuple) or t[0] != "in":
                        return None
                    if t[1][0] == "E" and t[1][1] == F_("GridCartesianGLL::m_dGDim"):
                        return dim[int(t[1][2][0].const())]
                    return None
                env["*"] = star
                wants = [k for k, t in enumerate(tab) if t[0] == pn and t[1] <= u * na < t[2] and t[3] <= v * nbn < t[4]]
                try:
                    thr = any(ncond(t[0], env) for t in I.throws)
                    if not wants or thr:
                        if bool(wants) == thr:
                            bad = bad or "panel %d (%g, %g): %s" % (pn, x, y, "refused" if thr else "a patch is named although none holds the point")
                        n_ += 1
                        continue
                    got = int(nval(pt, env))
                except Undefined as e:
                    bad = bad or "?%s" % e
                    break
                n_ += 1
                if got != wants[0]:
                    bad = bad or "panel %d (%g, %g): patch %d instead of %d" % (pn, x, y, got, wants[0])
        c.ob("locate", W(f), None if bad and bad[0] == "?" else bad is None, "%s: the patch whose interior holds the point (%d points)%s" % (cls, n_, bad and ": " + bad or ""), "locate|" + cls)
    c.need("locate", 5)
    c.need("box", 20)
    c.need("tile", 100)
    return c.finish("proof", "The patch constructor, layouts, distribution, lookup and connection code are interpreted to closed formulas or constant sequences; tiling, ownership and adjacency are decided on them.",
                    {"box": "index ranges of a patch derived from its interior range and halo width are consistent",
                     "tile": "for every accepted resolution and number of processes the patches are non-empty, aligned with elements, disjoint and cover every panel",
                     "owner": "each patch of the layout is created, initialised and listed by exactly the process recorded as its owner",
                     "lookup": "the patch named for a node index is the one holding that node or its continuation across the edge; none beyond cube corners and closed sides",
                     "connect": "every node on the boundary of a patch is connected exactly once to each adjacent patch",
                     "locate": "the patch named for a coordinate holds that coordinate"})
