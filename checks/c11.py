"""C11: quadrature rules, interpolation and differentiation are exact to their formal degree."""
from common import *
from absint import *
from ident import nval, ncond, Undefined
from grid1d import Column, solve, number, Singular

TOL = Fraction(3, 10 ** 14)


def lagrange(xs, x, order):
    """exact values of the order-th derivative at x of the Lagrange basis on xs."""
    n = len(xs)
    out = []
    for i in range(n):
        p = [Fraction(1)]
        for j in range(n):
            if j != i:
                d = xs[i] - xs[j]
                q = [Fraction(0)] * (len(p) + 1)
                for k, a in enumerate(p):
                    q[k] += a * (-xs[j]) / d
                    q[k + 1] += a / d
                p = q
        for _ in range(order):
            p = [a * k for k, a in enumerate(p)][1:] or [Fraction(0)]
        out.append(sum(a * x ** k for k, a in enumerate(p)))
    return out


def legendre(n):
    """coefficients of P_n."""
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(2, n + 1):
        c = [Fraction(0)] * (k + 1)
        for i, v in enumerate(b):
            c[i + 1] += Fraction(2 * k - 1, k) * v
        for i, v in enumerate(a):
            c[i] -= Fraction(k - 1, k) * v
        a, b = b, c
    return b


def diff(p):
    return [k * v for k, v in enumerate(p)][1:] or [Fraction(0)]


def at(p, x):
    return sum(v * x ** k for k, v in enumerate(p))


def roots(p, lo=-1, hi=1):
    """simple real roots in (lo, hi) by sign changes and bisection to 2^-70."""
    out, N = [], 400
    xs = [Fraction(lo) + Fraction(hi - lo) * (2 * k + 1) / (2 * N + 1) for k in range(N + 1)]
    xs = [Fraction(lo) + Fraction(1, 10 ** 6)] + xs + [Fraction(hi) - Fraction(1, 10 ** 6)]
    for a, b in zip(xs, xs[1:]):
        fa, fb = at(p, a), at(p, b)
        if fa == 0:
            out.append(a)
        elif fa * fb < 0:
            for _ in range(62):
                m = (a + b) / 2
                m = Fraction(int(m * 2 ** 70), 2 ** 70)
                fm = at(p, m)
                if fm == 0:
                    a = b = m
                    break
                if fa * fm < 0:
                    b = m
                else:
                    a, fa = m, fm
            out.append((a + b) / 2)
    return out


def run(c):
    prog = Program(sources())
    W = lambda f: (f.file, f.line, f.qual)
    PI, LP = "PolynomialInterp::", "LegendrePolynomial::"

    def interp(hook=None):
        I = new_interp(prog, call_hook=hook)
        I.unroll = 60
        return I

    def arr(I, st, name, vals):
        for i, v in enumerate(vals):
            I.store_to(st, ("E", ("G", name), (num(i),)), num(v) if not isinstance(v, Poly) else v, None)
        return ("ptr", ("E", ("G", name), (ZERO,)), "elem")

    def elems(I, st, place, n):
        return [number(I.load_elem(st, ("E", place, (num(i),)), "f")) for i in range(n)]

    def decide(rule, f, key, what, fun):
        try:
            r = fun()
        except Singular as e:
            r = str(e)
        except Undefined as e:
            c.ob(rule, W(f), None, "%s: %s" % (what, e), "%s|%s" % (rule, key))
            return
        c.ob(rule, W(f), r is None, what + ("" if r is None else ": " + r), "%s|%s" % (rule, key))

    # ---- Lagrange bases and their derivatives
    nodesets = [[Fraction(1, 3)], [Fraction(0), Fraction(1)], [Fraction(-1), Fraction(1, 3), Fraction(2)], [Fraction(0), Fraction(1, 4), Fraction(3, 5), Fraction(1)],
                [Fraction(-2), Fraction(-1, 3), Fraction(1, 7), Fraction(1), Fraction(5, 2)], [Fraction(k * k + k, 7) for k in range(6)]]
    if c.tier == "thorough":
        nodesets += [[Fraction(k * k * k - 5 * k, 11 + k) + k * k for k in range(7)], [Fraction(k, 3) + Fraction(1, k + 2) for k in range(8)]]
    for order, name in enumerate(["LagrangianPolynomialCoeffs", "DiffLagrangianPolynomialCoeffs", "DiffDiffLagrangianPolynomialCoeffs", "DiffDiffDiffLagrangianPolynomialCoeffs"]):
        f = prog.fn(PI + name)
        for xs in nodesets:
            if len(xs) == 1 and order:
                continue
            def test(f=f, xs=xs, order=order):
                for x in xs + [Fraction(1, 2), Fraction(-7, 5), Fraction(11, 4)]:
                    I = interp()
                    st = State()
                    X = arr(I, st, "X", xs)
                    s, _ = run_function(I, f, None, {f.params[0][1]: num(len(xs)), f.params[1][1]: X, f.params[2][1]: ("ptr", ("E", ("G", "C"), (ZERO,)), "elem"), f.params[3][1]: num(x)}, st)
                    c.functions.update(I.fnlog)
                    got = elems(I, s, ("G", "C"), len(xs))
                    want = lagrange(xs, x, order)
                    if any(abs(g - w) > TOL * max(1, abs(w)) for g, w in zip(got, want)):
                        return "wrong at %s for nodes %s" % (float(x), [float(v) for v in xs])
                return None
            decide("lagrange", f, "%d|%d" % (order, len(xs)), "derivative %d of the interpolating polynomial on %d nodes, at nodes and between" % (order, len(xs)), test)
    f = prog.fn(PI + "Interpolate")
    for xs in nodesets:
        def test(xs=xs):
            for x in xs + [Fraction(1, 2), Fraction(-7, 5)]:
                I = interp()
                st = State()
                ys = [atom(("y%d" % i,)) for i in range(len(xs))]
                s, r = run_function(I, f, None, dict(zip([p[1] for p in f.params], [num(len(xs)), arr(I, st, "X", xs), arr(I, st, "Y", ys), num(x)])), st)
                c.functions.update(I.fnlog)
                want = ZERO
                for y, w in zip(ys, lagrange(xs, x, 0)):
                    want = add(want, scale(y, w))
                d = sub(r, want)
                if any(abs(v) > TOL for v in d.t.values()):
                    return "wrong at %s for %d nodes" % (float(x), len(xs))
            return None
        decide("lagrange", f, "interp|%d" % len(xs), "value of the interpolating polynomial on %d nodes for any data" % len(xs), test)

    # ---- quadrature
    def points(qual, n, x01=None):
        fs = [f for f in prog.byqual[qual] if len(f.params) == (3 if x01 is None else 5)]
        if len(fs) != 1:
            raise AnalysisBroken("%s not found" % qual)
        f = fs[0]

        def hook(I, st, fr, nd, key, q, place, args):
            if q in (LP + "AllRoots", LP + "AllDerivativeRoots"):        # contract: the roots, in ascending order
                k = int(I.as_num(I.ev(args[0], st, fr)).const())
                p = I.ev(args[1], st, fr)
                if not (isinstance(p, tuple) and p[0] == "ptr"):
                    p = ("ptr", ("E", I.lv(args[1], st, fr), (ZERO,)), "elem")
                r = roots(legendre(k) if q.endswith("AllRoots") else diff(legendre(k)))
                for i, v in enumerate(r):
                    I.store_to(st, I.index_place(p, (num(i),)), num(v), None)
                return ("opq", ("void",))
            return NotImplemented
        I = interp(hook)
        G, Wt = ("G", "nodes"), ("G", "weights")
        args = {}
        vals = [num(n)] + [num(x) for x in (x01 or ())]
        for p in f.params:
            if is_ref(p[2]):
                args[p[1]] = ("PLACE", G if "PLACE" not in [v[0] if isinstance(v, tuple) else None for v in args.values()] else Wt)
            else:
                args[p[1]] = vals.pop(0)
        for nm in (G, Wt):
            I.place_types[nm] = "DataArray1D<double>"
        s, _ = run_function(I, f, None, args, State())
        c.functions.update(I.fnlog)
        if s is None:
            raise Undefined("refused")
        return f, elems(I, s, G, n), elems(I, s, Wt, n)

    top = 10 if c.tier == "quick" else 14
    tables = {}
    for qual, first, deg in (("GaussLobattoQuadrature::GetPoints", 2, lambda n: 2 * n - 3), ("GaussQuadrature::GetPoints", 1, lambda n: 2 * n - 1)):
        f0 = prog.byqual[qual][0]
        for n in range(first, top + 1):
            def test(qual=qual, n=n, deg=deg):
                f, x, w = points(qual, n)
                tables[qual, n] = x, w
                if any(b <= a for a, b in zip(x, x[1:])) or x[0] < -1 or x[-1] > 1:
                    return "nodes are not increasing in [-1, 1]"
                if "Lobatto" in qual and (x[0] != -1 or x[-1] != 1):
                    return "end points missing"
                if any(v <= 0 for v in w):
                    return "weight not positive"
                for k in range(deg(n) + 1):
                    e = sum(v * y ** k for v, y in zip(w, x)) - (Fraction(2, k + 1) if k % 2 == 0 else 0)
                    if abs(e) > TOL:
                        return "integral of x^%d off by %.2g" % (k, float(e))
                return None
            decide("quadrature", f0, "%s|%d" % (qual, n), "%s(%d): nodes ordered, weights positive, exact for polynomials up to degree %d" % (qual.split(":")[0], n, deg(n)), test)
        for n in (first, 4, 5):
            def test(qual=qual, n=n):
                f, x, w = points(qual, n, (Fraction(-2, 3), Fraction(7, 2)))
                a, h = Fraction(-2, 3), Fraction(25, 6)
                x0, w0 = tables.get((qual, n)) or points(qual, n)[1:]
                if any(abs(p - (a + h * (q + 1) / 2)) > TOL for p, q in zip(x, x0)) or any(abs(p - h * q / 2) > TOL for p, q in zip(w, w0)):
                    return "not the affine image of the rule on [-1, 1]"
                return None
            decide("quadrature", f0, "affine|%s|%d" % (qual, n), "%s(%d) on another interval is the affine image of the rule" % (qual.split(":")[0], n), test)

    # ---- Legendre polynomials
    f = prog.fn(LP + "EvaluateValueAndDerivative")
    for n in range(0, top + 2):
        def test(n=n):
            p = legendre(n)
            d = diff(p)
            for x in [Fraction(-1), Fraction(1), Fraction(0), Fraction(1, 3), Fraction(-4, 5), Fraction(6, 7)]:
                I = interp()
                V, D = ("G", "v"), ("G", "d")
                I.place_types[V] = I.place_types[D] = "double"
                s, _ = run_function(I, f, None, dict(zip([q[1] for q in f.params], [num(n), num(x), ("PLACE", V), ("PLACE", D)])), State())
                c.functions.update(I.fnlog)
                if abs(number(I.load(s, V, "f")) - at(p, x)) > TOL or abs(number(I.load(s, D, "f")) - at(d, x)) > TOL * 100:
                    return "wrong at %s" % float(x)
            return None
        decide("legendre", f, "%d" % n, "value and derivative of the Legendre polynomial of degree %d" % n, test)
    for name, lo, hi, cnt in (("Root", 1, 8, 0), ("DerivativeRoot", 2, 8, -1), ("DerivativeExtendedRoot", 2, 8, 1)):
        f = prog.fn(LP + name)
        for n in range(lo, hi + 1):
            def test(f=f, n=n, name=name, cnt=cnt):
                xs = []
                for i in range(n + cnt):
                    I = interp()
                    s, r = run_function(I, f, None, dict(zip([q[1] for q in f.params], [num(n), num(i)])), State())
                    c.functions.update(I.fnlog)
                    if s is None:
                        return "root %d refused" % i
                    xs.append(number(r))
                p = legendre(n) if name == "Root" else diff(legendre(n))
                inner = xs[1:-1] if cnt == 1 else xs
                if cnt == 1 and (xs[0], xs[-1]) != (-1, 1):
                    return "end points missing"
                if any(b <= a for a, b in zip(xs, xs[1:])) or any(abs(at(p, x)) > TOL * 100 for x in inner):
                    return "not the roots in ascending order"
                return None
            decide("legendre", f, "%s|%d" % (name, n), "%s: tabulated roots for degree %d" % (name, n), test)

    # ---- flux correction functions
    f = prog.fn("FluxCorrectionFunction::GetDerivatives")

    def dgesv(I, st, fr, nd, key, q, place, args):
        if (q or "").startswith("LAPACK::DGESV"):
            A, B = I.lv(args[0], st, fr), I.lv(args[1], st, fr)
            n = int(I.as_num(st.store[("F", B, "$rows")] if ("F", B, "$rows") in st.store else num(dgesv.n)).const())
            M = [[number(I.load_elem(st, ("E", A, (num(j), num(i))), "f")) for j in range(n)] for i in range(n)]    # column-major
            b = [number(I.load_elem(st, ("E", B, (num(i),)), "f")) for i in range(n)]
            for i, v in enumerate(solve(M, b)):
                I.store_to(st, ("E", B, (num(i),)), num(v), None)
            return ZERO
        return NotImplemented
    for typ in (1, 2):
        for n in range(max(typ, 1), 7):
            def test(typ=typ, n=n):
                xs = [Fraction(0), Fraction(1, 5), Fraction(1, 2), Fraction(7, 8), Fraction(1)]
                dgesv.n = n + 1
                I = interp(dgesv)
                st = State()
                N, D = ("G", "N"), ("G", "D")
                arr(I, st, "N", xs)
                I.field_init = None
                I.place_types[N] = I.place_types[D] = "DataArray1D<double>"

                def rows(I_, st_, fr, nd, key, q, place, args):
                    if place == N and (q or "").endswith("::GetRows"):
                        return num(len(xs))
                    return dgesv(I_, st_, fr, nd, key, q, place, args)
                I.call_hook = rows
                s, _ = run_function(I, f, None, dict(zip([p[1] for p in f.params], [num(typ), num(n), ("PLACE", N), ("PLACE", D)])), st)
                c.functions.update(I.fnlog)
                got = elems(I, s, D, len(xs))
                # g of degree n: g(1) = 1, its first typ derivatives (from the 0th) vanish at -1, orthogonal to degrees below n - typ
                A = [[Fraction(1)] * (n + 1)]
                b = [Fraction(1)] + [Fraction(0)] * n
                for d in range(typ):
                    row = []
                    for k in range(n + 1):
                        p = [Fraction(0)] * k + [Fraction(1)]
                        for _ in range(d):
                            p = diff(p)
                        row.append(at(p, Fraction(-1)))
                    A.append(row)
                for d in range(n - typ):
                    A.append([Fraction(2, k + d + 1) if (k + d) % 2 == 0 else Fraction(0) for k in range(n + 1)])
                g = diff(solve(A, b))
                for x, v in zip(xs, got):
                    w = 2 * at(g, 2 * x - 1)
                    if abs(v - w) > TOL * max(1, abs(w)):
                        return "%.12g instead of %.12g at %s" % (float(v), float(w), float(x))
                return None
            decide("flux", f, "%d|%d" % (typ, n), "derivative of the flux correction function of type %d, order %d" % (typ, n), test)

    # ---- reference element of the spectral element grid
    f = prog.fn("GridGLL::Initialize")
    exact = {}
    for n in range(2, 7 if c.tier == "quick" else 9):
        K = Column(prog, c, n, 1, 2, "FiniteElement", "Lorenz")
        try:
            K.call("GridGLL::Initialize", vertical=False)
        except Undefined as e:
            c.ob("element", W(f), False if isinstance(e, Singular) else None, "order %d: %s" % (n, e), "element|%d" % n)
            continue
        D, S = K.array("GridGLL::m_dDxBasis1D", n, n), K.array("GridGLL::m_dStiffness1D", n, n)
        w, fd = K.array("GridGLL::m_dGLLWeights1D", n), K.array("GridGLL::m_dFluxDeriv1D", n)
        _, x, wq = points("GaussLobattoQuadrature::GetPoints", n)
        x, wq = [(v + 1) / 2 for v in x], [v / 2 for v in wq]
        rows = [lagrange(x, y, 1) for y in x]
        tol = TOL * 100
        bad = next((m for m in range(n) for i in range(n) if abs(D[m][i] - rows[i][m]) > tol), None)
        c.ob("element", W(f), bad is None, "order %d: derivative of every basis function at every node%s" % (n, "" if bad is None else ": basis function %d" % bad), "element|D|%d" % n)
        bad = next((m for m in range(n) for i in range(n) if abs(S[m][i] * wq[m] - D[m][i] * wq[i]) > tol), None)
        c.ob("element", W(f), bad is None, "order %d: weak derivative is the transposed derivative in the quadrature inner product%s" % (n, "" if bad is None else ": basis function %d" % bad), "element|S|%d" % n)
        bad = next((m for m in range(n) if abs(w[m] - wq[m]) > tol), None)
        c.ob("element", W(f), bad is None, "order %d: quadrature weights of the element" % n, "element|w|%d" % n)
        bad = next(((m, i) for m in range(n) for i in range(n) if abs(S[m][i] * w[m] + S[i][m] * w[i] - (0 if m != i else 1 if m == n - 1 else -1 if m == 0 else 0)) > tol), None)
        c.ob("element", W(f), bad is None, "order %d: summation by parts: fluxes between nodes of an element cancel%s" % (n, "" if bad is None else " (nodes %d, %d)" % bad), "element|SBP|%d" % n)

    # ---- position of nodes
    for cls, per, nodes, edges in (("GridSpacingUniform", lambda n: 1, "mid", "edge"), ("GridSpacingGaussLobattoRepeated", lambda n: n, "GLL", "GLL"), ("GridSpacingMixedGaussLobatto", lambda n: n, "GL", "GLL+1")):
        ctor = prog.fn(cls + "::" + cls)
        for n in ((1,) if cls == "GridSpacingUniform" else (2, 3, 4, 5)):
            def test(cls=cls, n=n, nodes=nodes, edges=edges):
                K = Column(prog, c, n, 1, 2, "FiniteElement", "Lorenz")
                I = K.I
                obj = ("G", "spacing")
                d0, z0 = Fraction(3, 2), Fraction(-5, 7)
                ctor = prog.fn(cls + "::" + cls)
                st, _ = run_function(I, ctor, obj, dict(zip([q[1] for q in ctor.params], [num(d0), num(z0), num(n)])), State())
                base = {"mid": lambda: [Fraction(1, 2)], "edge": lambda: [Fraction(0)], "GLL": lambda: [(v + 1) / 2 for v in points("GaussLobattoQuadrature::GetPoints", n)[1]],
                        "GL": lambda: [(v + 1) / 2 for v in points("GaussQuadrature::GetPoints", n)[1]], "GLL+1": lambda: [(v + 1) / 2 for v in points("GaussLobattoQuadrature::GetPoints", n + 1)[1]]}
                wt = {"mid": lambda: [Fraction(1)], "edge": lambda: [Fraction(1)], "GLL": lambda: [v / 2 for v in points("GaussLobattoQuadrature::GetPoints", n)[2]],
                      "GL": lambda: [v / 2 for v in points("GaussQuadrature::GetPoints", n)[2]], "GLL+1": lambda: [v / 2 for v in points("GaussLobattoQuadrature::GetPoints", n + 1)[2]]}
                for meth, kind, area in (("GetNode", nodes, 0), ("GetEdge", edges, 0), ("GetNodeNormArea", nodes, 1), ("GetEdgeNormArea", edges, 1)):
                    g = prog.fn(cls + "::" + meth)
                    b = (wt if area else base)[kind]()
                    for ix in range(0 if area else -n + 1, 3 * n):
                        s, r = run_function(I, g, obj, {g.params[0][1]: num(ix)}, st.fork())
                        if s is None:
                            return "%s(%d) refused" % (meth, ix)
                        e, k = divmod(ix, n)
                        want = b[k] * d0 * (2 if area and kind == "GLL+1" and k == 0 else 1) if area else z0 + d0 * (e + b[k])
                        if abs(number(r) - want) > TOL * 100:
                            return "%s(%d) is %.12g instead of %.12g" % (meth, ix, float(number(r)), float(want))
                c.functions.update(I.fnlog)
                return None
            decide("spacing", ctor, "%s|%d" % (cls, n), "%s(%d): nodes, edges and areas, also in the halo" % (cls, n), test)
    c.need("lagrange", 20)
    c.need("quadrature", 20)
    c.need("legendre", 20)
    c.need("flux", 8)
    c.need("element", 20)
    c.need("spacing", 6)
    return c.finish("proof", "The tables and formulas are folded to constants, order by order, by interpreting the functions on exact rational arguments; the constants are compared with the exact values.",
                    {"lagrange": "interpolation and its derivatives reproduce the interpolating polynomial of any data",
                     "quadrature": "nodes ordered inside the interval, weights positive, exact to the formal degree",
                     "legendre": "Legendre polynomials, derivatives and tabulated roots",
                     "flux": "flux correction functions satisfy the conditions that define them",
                     "element": "derivative, weak derivative and weights of the reference element are consistent (summation by parts)",
                     "spacing": "node i + n lies one element after node i"})
