"""C13: coordinates, topography slopes and metric terms describe one terrain-following coordinate."""
from gll import *
from sym import _terms as _terms_
from grid1d import Column, rnd
import math, random, zlib
import ident
nval0 = ident.nval

REL = 1e-8


def draw(seed, ranges):
    """environment giving every initial value of the program a value drawn from a range by its name."""
    memo = {}

    def gen(t):
        if t not in memo:
            s = str(t)
            lo, hi = 0.4, 1.6
            for k, r in ranges.items():
                if k in s:
                    lo, hi = r
            memo[t] = lo + (hi - lo) * random.Random(zlib.crc32(("%d %s" % (seed, s)).encode())).random()
        return memo[t]
    return {"*": gen}


RANGES = {"m_dataTopography": (0.02, 0.3), "height": (0.02, 0.3), "m_dataTopographyDeriv": (-0.6, 0.6), "('eta": (0.02, 0.98), "Ztop": (2.0, 3.0), "radius": (1.5, 2.5)}


MEMO = {}


def nval(p, env):
    m = MEMO.setdefault(id(env), (env, {}))
    return nval0(p, env, m[1])


def matinv(M):
    n = len(M)
    cols = [solve([[Fraction(x) for x in r] for r in M], [Fraction(int(i == j)) for i in range(n)]) for j in range(n)]
    return [[float(cols[j][i]) for j in range(n)] for i in range(n)]


def close(a, b, s=1.0, rel=REL):
    return abs(a - b) <= rel * max(abs(a), abs(b), s)


def position(panel, x, y):
    """point of the unit sphere (reference orientation of the panels, as the panel transforms of the program use)."""
    d = math.sqrt(1 + x * x + y * y)
    return [v / d for v in ((1, x, y), (-x, 1, y), (-1, -x, y), (x, -1, y), (-y, x, 1), (y, x, -1))[panel]]


def metric2d(cs, a, b, R):
    if not cs:
        return [[1.0, 0.0], [0.0, 1.0]]
    h = 1e-4

    def d(k):
        f = lambda e: position(0, math.tan(a + (e if k == 0 else 0)), math.tan(b + (e if k == 1 else 0)))
        return [(8 * (p - m) - (q - n)) / (12 * h) for p, m, q, n in zip(f(h), f(-h), f(2 * h), f(-2 * h))]
    A, B = d(0), d(1)
    dot = lambda u, v: sum(p * q for p, q in zip(u, v)) * R * R
    return [[dot(A, A), dot(A, B)], [dot(A, B), dot(B, B)]]


def patch(prog, c, cls, **kw):
    P = GllPatch(prog, c, cls, **kw)
    f = prog.fn("GridPatch::InitializeDataLocal")
    P.call(f, {p[1]: ("F",) for p in f.params})
    return P


def run(c):
    prog = Program(sources())
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    gl = {}

    def points(n):
        if n not in gl:
            I = new_interp(prog)
            I.unroll = 60
            f = [g for g in prog.byqual["GaussLobattoQuadrature::GetPoints"] if len(g.params) == 5] if hasattr(prog, "byqual") else []
            st = State()
            X, V = ("G", "gx"), ("G", "gw")
            f = f[0]
            a = dict(zip([p[1] for p in f.params], [num(n), ZERO, num(1), ("PLACE", X), ("PLACE", V)]))
            s, _ = run_function(I, f, None, a, st)
            gl[n] = [[float(number(I.load_elem(s, ("E", o, (num(i),)), "f"))) for i in range(n)] for o in (X, V)]
        return gl[n]

    def arrange(P):
        """derivative of the basis functions, read from the reference element by order."""
        K = Column(prog, c, P.order, 1, 2, "FiniteElement", "Lorenz")
        K.call("GridGLL::Initialize", vertical=False)
        D = K.array("GridGLL::m_dDxBasis1D", P.order, P.order)

        P.tables["m_dDxBasis1D"] = D
        return D

    cases = [("GridPatchCSGLL", dict(na=2, nb=1, order=3, a0=1, b0=2, panel=1)), ("GridPatchCSGLL", dict(na=1, nb=2, order=2, a0=3, b0=0, panel=4, base=(4, 4))),
             ("GridPatchCSGLL", dict(na=1, nb=1, order=4, a0=0, b0=1, panel=5, base=(2, 2))), ("GridPatchCSGLL", dict(na=1, nb=1, order=2, a0=1, b0=1, panel=3, base=(3, 3), dim=2, nlev=1, comps=3)),
             ("GridPatchCartesianGLL", dict(na=2, nb=1, order=3, a0=1, b0=2, panel=0, base=(5, 3))), ("GridPatchCartesianGLL", dict(na=1, nb=2, order=2, a0=0, b0=1, panel=0, base=(1, 4), xz=True)),
             ("GridPatchCartesianGLL", dict(na=1, nb=1, order=4, a0=2, b0=0, panel=0, base=(3, 2)))]
    if c.tier == "thorough":
        cases += [("GridPatchCSGLL", dict(na=2, nb=2, order=o, a0=a, b0=b, panel=p, base=(4, 4), nlev=3)) for o, a, b, p in ((2, 0, 2, 0), (3, 2, 0, 2), (4, 1, 1, 5), (5, 2, 2, 4))]
        cases += [("GridPatchCartesianGLL", dict(na=2, nb=2, order=o, a0=a, b0=b, panel=0, base=(5, 6), nlev=3)) for o, a, b in ((2, 0, 2), (5, 3, 1))]
    NP = 3 if c.tier == "quick" else 8

    for cls, kw in cases:
        tag = "%s, %s" % (cls, ", ".join("%s %s" % (k, v) for k, v in sorted(kw.items())))

        def decide(rule, q, what, fun):
            key = "%s|%s|%s|%s" % (rule, what, cls, sorted(kw.items()))
            try:
                r = fun()
            except Undefined as e:
                c.ob(rule, W(q), None, "%s: %s: %s" % (tag, what, e), key)
                return
            c.ob(rule, W(q), r is None, "%s: %s%s" % (tag, what, "" if r is None else ": " + r), key)
        kw = dict(kw)
        xz = kw.pop("xz", False)
        P = patch(prog, c, cls, **kw)
        P.given["m_fCartesianXZ"] = ("T",) if xz else ("F",)
        n, cs = P.order, P.cs
        D = arrange(P)
        X0, W0 = points(n)
        A = P.arr
        lo = {0: kw.get("a0", 0), 1: kw.get("b0", 0)}
        if P.dim == 2:
            P.given["m_dZtop"] = num(1)
        q = cls + "::InitializeCoordinateData"
        P.call(q)

        def env_of(s):
            MEMO.clear()
            env = draw(s, RANGES)
            if cs:
                d = 0.5 * math.pi / P.base[0]
                for nm, o, tot in (("X", lo[0], P.sa), ("Y", lo[1], P.sb)):
                    for i in range(tot):
                        e, k = divmod(o * n + i - 1, n)
                        env[nm, num(i)] = math.tan(-0.25 * math.pi + d * (e + X0[k]))
            return env

        def box(env):
            """origin and element size in both directions."""
            if cs:
                d = 0.5 * math.pi / P.base[0]
                return (-0.25 * math.pi, -0.25 * math.pi), (d, d)
            v = [nval(atom(("ext", num(i))), env) for i in range(4)]
            return (v[0], v[2]), ((v[1] - v[0]) / P.base[0], (v[3] - v[2]) / P.base[1])

        def coords():
            for s in range(NP):
                env = env_of(s)
                (oa, ob), (da, db) = box(env)
                for ax, node, edge, o, d, tot in ((0, "m_dANode", "m_dAEdge", oa, da, P.sa), (1, "m_dBNode", "m_dBEdge", ob, db, P.sb)):
                    for i in range(tot):
                        e, k = divmod(lo[ax] * n + i - 1, n)
                        v = nval(P.get(A(node), i), env)
                        if not close(v, o + d * (e + X0[k])):
                            return "node %d of axis %d at %.10g instead of %.10g" % (i - 1, ax, v, o + d * (e + X0[k]))
                        if i >= 1 and (i - 1) % n == 0:
                            v = nval(P.get(A(edge), i), env)
                            if not close(v, o + d * e):
                                return "element edge %d of axis %d at %.10g instead of %.10g" % (i - 1, ax, v, o + d * e)
                for name, d in (("m_dElementDeltaA", da), ("m_dElementDeltaB", db)):
                    v = nval(P.I.load(P.st, P.F("GridPatchGLL::" + name), "f"), env)
                    if not close(v, d):
                        return "%s is %.10g instead of %.10g" % (name, v, d)
                for i in range(P.sa):
                    for j in range(P.sb):
                        a, b = nval(P.get(A("m_dANode"), i), env), nval(P.get(A("m_dBNode"), j), env)
                        lon, lat = nval(P.get(A("m_dataLon"), i, j), env), nval(P.get(A("m_dataLat"), i, j), env)
                        if not cs:
                            ok = close(lon, a) and close(lat, b)
                        else:
                            x, y = [nval(P.get(P.F("GridPatchCSGLL::m_d%sNode" % nm), k), env) for nm, k in (("X", i), ("Y", j))]
                            if not (close(x, math.tan(a)) and close(y, math.tan(b))):
                                return "gnomonic coordinate of node (%d, %d)" % (i - 1, j - 1)
                            p = position(P.panel, math.tan(a), math.tan(b))
                            r = (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))
                            ok = all(close(u, v) for u, v in zip(p, r)) if 1 + math.tan(a) > 0 else True
                        if not ok:
                            return "longitude and latitude of node (%d, %d)" % (i - 1, j - 1)
            return P.bad
        decide("coordinates", q, "positions of nodes, halo included, and element sizes", coords)

        # ---- topography: values at the nodes, slopes exact for polynomials of the element
        q = cls + "::EvaluateTopography"
        calls = {}

        def topo(I, st, fr, nd, key, qq, place, args):
            if qq.endswith("::EvaluateTopography") and "TestCase" in qq:
                u, v = [I.as_num(I.ev(x, st, fr)) for x in args[-2:]]
                t = atom(("height", u, v))
                return t
            return NotImplemented
        P.extra.append(topo)

        def slopes():
            P.call(q)
            inverse = {}
            for s in range(2):
                env = env_of(s)
                (oa, ob), (da, db) = box(env)
                A_ = [nval(P.get(A("m_dANode"), i), env) for i in range(P.sa)]
                B_ = [nval(P.get(A("m_dBNode"), j), env) for j in range(P.sb)]
                place = {}
                for i in range(P.sa):
                    for j in range(P.sb):
                        h = P.get(A("m_dataTopography"), i, j)
                        if len(h.t) != 1 or "height" not in str(h):
                            return "height of node (%d, %d) is %s" % (i - 1, j - 1, h)
                        t = next(iter(h.t))[0][0]
                        t = _terms_[t]
                        if h != atom(t):
                            return "height of node (%d, %d) is %s" % (i - 1, j - 1, h)
                        lon, lat = nval(t[1], env), nval(t[2], env)
                        w = nval(P.get(A("m_dataLon"), i, j), env), nval(P.get(A("m_dataLat"), i, j), env)
                        if not (close(lon, w[0]) and close(lat, w[1])):
                            return "height of node (%d, %d) taken at (%.6g, %.6g) instead of (%.6g, %.6g)" % (i - 1, j - 1, lon, lat, w[0], w[1])
                for pw in ((n - 1, 0), (0, n - 1), (1, 1), (n - 1, n - 1)):
                    e2 = dict(env)
                    for i in range(P.sa):
                        for j in range(P.sb):
                            t = _terms_[next(iter(P.get(A("m_dataTopography"), i, j).t))[0][0]]
                            e2[t] = A_[i] ** pw[0] * B_[j] ** pw[1]
                    for i in range(1, P.sa - 1):
                        for j in range(1, P.sb - 1):
                            want = (pw[0] * A_[i] ** max(pw[0] - 1, 0) * B_[j] ** pw[1], pw[1] * A_[i] ** pw[0] * B_[j] ** max(pw[1] - 1, 0))
                            # duplicate positions (element edges, panel) share a value, so polynomials stay consistent
                            for k in range(2):
                                v = nval(P.get(A("m_dataTopographyDeriv"), i, j, k), e2)
                                if not close(v, want[k], 1e-2):
                                    return "slope %d of node (%d, %d) is %.10g instead of %.10g for a^%d b^%d" % (k, i - 1, j - 1, v, want[k], pw[0], pw[1])
            return P.bad
        decide("topography", q, "heights at the nodes, slopes exact for polynomials", slopes)
        P.extra.remove(topo)
        # ---- metric terms, with symbolic heights and slopes
        P2 = patch(prog, c, cls, **kw)
        P2.given.update(P.given)
        P2.call(cls + "::InitializeCoordinateData")
        if cs:
            for nm, tot in (("X", P.sa), ("Y", P.sb)):
                for i in range(tot):
                    P2.set(P2.F("GridPatchCSGLL::m_d%sNode" % nm), (i,), atom((nm, num(i))))
        q = cls + "::EvaluateGeometricTerms"
        P2.call(q)
        Q = P2
        ar = Q.arr

        # height of the levels, from the initialisation of the state
        q3 = cls + "::EvaluateTestCase"
        f3 = prog.fn(q3)
        P3 = patch(prog, c, cls, **kw)
        P3.given.update(P.given)

        def quiet(I, st, fr, nd, key, qq, place, args):
            m = qq.split("::")[-1]
            if m == "HasRayleighFriction" or m == "HasReferenceState":
                return ("F",)
            if qq == "TestCase::EvaluateTopography":
                return atom(("height",) + tuple(I.as_num(I.ev(x, st, fr)) for x in args[-2:]))
            if m in ("EvaluateTopography", "EvaluatePointwiseState", "ConvertComponents", "CoVecTransABPFromRLL", "VecTransABPFromRLL"):
                return ("opq", ("void",))
            if m == "size":
                return num(2)
            return NotImplemented
        P3.extra.append(quiet)
        P3.call(cls + "::InitializeCoordinateData")
        zs_ok = True
        try:
            P3.call(f3, {f3.params[-1][1]: ZERO})
        except Undefined as e:
            zs_ok = False
            c.ob("metric", W(q3), None, "%s: levels: %s" % (tag, e), "metric|levels|%s|%s" % (cls, sorted(kw.items())))

        def Z(i, j, k, edge, env, **over):
            return nval(P3.get(ar("m_dataZInterfaces" if edge else "m_dataZLevels"), i, j, k), env)

        def init_term(name, *ix):
            return ("in", ("E", ar(name), tuple(num(x) for x in ix)))
        def metric():
            for s in range(NP):
                env = env_of(s + 11)
                (oa, ob), (da, db) = box(env)
                R = nval(atom(("radius",)), env) if cs else 1.0
                for i in range(1, P.sa - 1):
                    for j in range(1, P.sb - 1):
                        a, b = nval(Q.get(ar("m_dANode"), i), env), nval(Q.get(ar("m_dBNode"), j), env)
                        g = metric2d(cs, a, b, R)
                        gi = matinv(g)
                        J2 = math.sqrt(g[0][0] * g[1][1] - g[0][1] ** 2)
                        N = lambda name, *ix: nval(Q.get(ar(name), *ix), env)
                        nd = "node (%d, %d)" % (i - 1, j - 1)
                        for nm, M in (("Cov", g), ("Contra", gi)):
                            for r, x in enumerate("AB"):
                                for cc in range(2):
                                    v = N("m_data%sMetric2D%s" % (nm, x), i, j, cc)
                                    if not close(v, M[r][cc], 1e-2):
                                        return "%s: %svariant metric (%d, %d) of the surface is %.8g instead of %.8g" % (nd, nm.lower(), r, cc, v, M[r][cc])
                        if not close(N("m_dataJacobian2D", i, j), J2):
                            return "%s: surface Jacobian is %.8g instead of %.8g" % (nd, N("m_dataJacobian2D", i, j), J2)
                        wi, wj = W0[(i - 1) % n] * da, W0[(j - 1) % n] * db
                        for edge in (0, 1):
                            E = "REdge" if edge else ""
                            for k in range(P.nlev + edge):
                                lv = "%s, %s %d" % (nd, "interface" if edge else "level", k)
                                R_ = [N("m_dataDerivRREdge" if edge else "m_dataDerivRNode", i, j, k, x) for x in range(3)]
                                G3 = [[g[0][0] + R_[0] * R_[0], g[0][1] + R_[0] * R_[1], R_[0] * R_[2]],
                                      [g[0][1] + R_[0] * R_[1], g[1][1] + R_[1] * R_[1], R_[1] * R_[2]],
                                      [R_[0] * R_[2], R_[1] * R_[2], R_[2] * R_[2]]]
                                Gi = matinv(G3)
                                for r, x in enumerate(("A", "B", "Xi")):
                                    for cc in range(3):
                                        v = N("m_dataContraMetric%s%s" % (x, E), i, j, k, cc)
                                        if not close(v, Gi[r][cc], 1e-2):
                                            return "%s: contravariant metric (%d, %d) is %.8g instead of %.8g" % (lv, r, cc, v, Gi[r][cc])
                                v = N("m_dataJacobian" + E, i, j, k)
                                if not close(v, J2 * R_[2]):
                                    return "%s: Jacobian is %.8g instead of %.8g" % (lv, v, J2 * R_[2])
                                v = N("m_dataElementArea" + ("REdge" if edge else "Node"), i, j, k)
                                na = nval(atom(("areai" if edge else "area", num(k))), env)
                                if not close(v, J2 * R_[2] * wi * wj * na):
                                    return "%s: volume is %.8g instead of %.8g" % (lv, v, J2 * R_[2] * wi * wj * na)
                                if P.dim == 2:
                                    if R_ != [0.0, 0.0, 1.0]:
                                        return "%s: a two-dimensional model has slope %s" % (lv, R_)
                                    continue
                                # height of the level
                                et = ("etai" if edge else "eta", num(k))
                                h0, h1 = init_term("m_dataTopography", i, j), P3.get(ar("m_dataTopography"), i, j)
                                t1 = _terms_[h1.atoms().__iter__().__next__()] if len(h1.t) == 1 else None
                                if t1 is None or h1 != atom(t1):
                                    return "%s: height of the surface is %s" % (lv, h1)
                                if t1[0] == "height":
                                    ll = [nval(P3.get(ar(x), i, j), env) for x in ("m_dataLon", "m_dataLat")]
                                    if not all(close(nval(u, env), v) for u, v in zip(t1[1:], ll)):
                                        return "%s: height of the surface taken elsewhere" % lv
                                top = nval(atom(("Ztop",)), env)

                                def at(eta, zs):
                                    e2 = dict(env)
                                    e2[et], e2[h0], e2[t1] = eta, zs, zs
                                    return Z(i, j, k, edge, e2)
                                e0, z0 = nval(atom(et), env), nval(atom(h0), env)
                                if not close(at(0.0, z0), z0) or not close(at(1.0, z0), top):
                                    return "%s: levels run from %.8g to %.8g instead of %.8g to %.8g" % (lv, at(0.0, z0), at(1.0, z0), z0, top)
                                d4 = lambda f, x, h=1e-3: (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)
                                want = d4(lambda e: at(e, z0), e0)
                                if not close(R_[2], want, rel=1e-6):
                                    return "%s: thickness of the coordinate is %.8g, its levels give %.8g" % (lv, R_[2], want)
                                dz = d4(lambda z: at(e0, z), z0)
                                for x in range(2):
                                    sl = nval(atom(init_term("m_dataTopographyDeriv", i, j, x)), env)
                                    if not close(R_[x], dz * sl, 1e-2, rel=1e-6):
                                        return "%s: slope %d of the level is %.8g, its heights give %.8g" % (lv, x, R_[x], dz * sl)
            return Q.bad or P3.bad

        if zs_ok:
            decide("metric", q, "metric, Jacobian, volumes and slopes of the levels", metric)

        def coriolis():
            for s in range(NP):
                env = env_of(s)
                (oa, ob), (da, db) = box(env)
                for i in range(P.sa):
                    for j in range(P.sb):
                        v = nval(Q.get(ar("m_dataCoriolisF"), i, j), env)
                        om = nval(atom(("Omega",)), env)
                        lat = nval(Q.get(ar("m_dataLat"), i, j), env)
                        if cs:
                            want = 2 * om * math.sin(lat)
                        else:
                            xz = P.given["m_fCartesianXZ"] == ("T",)
                            ref, y0 = nval(atom(("reflat",)), env), 0.5 * abs(db * P.base[1])
                            want = 0.0 if xz else 2 * om * (math.sin(ref) + math.cos(ref) / nval(atom(("radius",)), env) * (lat - y0))
                        if not close(v, want, 1e-3):
                            return "node (%d, %d): %.8g instead of %.8g" % (i - 1, j - 1, v, want)
            return None
        decide("coriolis", q, "Coriolis parameter at every node", coriolis)
    c.need("coordinates", 7)
    c.need("topography", 7)
    c.need("metric", 7)
    c.need("coriolis", 7)
    return c.finish("proof", "The set-up functions of a patch are interpreted with symbolic heights, slopes, extents and levels; the resulting formulas are compared with the metric of the embedding.",
                    {"coordinates": "nodes, element edges and sizes, longitude and latitude at every node including the halo",
                     "topography": "heights taken at the nodes; slopes exact for every polynomial of the element",
                     "metric": "surface and terrain-following metric, Jacobians and volumes are those of the coordinate whose levels the state uses",
                     "coriolis": "2 Omega sin(latitude), or its plane approximation, at every node"})
