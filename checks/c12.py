"""C12: the vertical coordinate and the column operators on it are consistent."""
from common import *
from absint import *
from ident import nval, Undefined
from grid1d import Column, number, TH, Singular
import sym
from sym import subst

TOL = Fraction(1, 10 ** 10)
OPS = [("m_opInterpNodeToREdge", "L", "I", 0), ("m_opInterpREdgeToNode", "I", "L", 0), ("m_opDiffNodeToNode", "L", "L", 1), ("m_opDiffNodeToNodeZeroBoundaries", "L", "L", 1),
       ("m_opDiffNodeToREdge", "L", "I", 1), ("m_opDiffREdgeToNode", "I", "L", 1), ("m_opDiffREdgeToREdge", "I", "I", 1), ("m_opDiffDiffNodeToNode", "L", "L", 2), ("m_opDiffDiffREdgeToREdge", "I", "I", 2)]


def degree(op, disc, stag, vo, nl, i, rows, stretched):
    """polynomial degree to which row i of an operator has to be exact."""
    if disc == "FiniteVolume" and stretched:
        return 0
    end = i in (0, rows - 1)
    if op.startswith("m_opDiffDiff"):
        k = 1 if disc == "FiniteVolume" else vo - 1 if stag == "Interfaces" or op.endswith("NodeToNode") else vo
        n = 1 if disc == "FiniteVolume" else vo
        near = i < n or i >= rows - n if op.endswith("NodeToNode") and stag != "Interfaces" else end
        return 0 if near else k
    if disc == "FiniteVolume":
        return {"m_opInterpNodeToREdge": 0 if vo == 2 and end else 1, "m_opInterpREdgeToNode": 1, "m_opDiffNodeToNode": 0 if vo == 2 and end else 1, "m_opDiffNodeToREdge": 0 if vo == 2 and end else 1,
                "m_opDiffREdgeToNode": 2, "m_opDiffREdgeToREdge": 1}[op]
    if stag == "Interfaces":
        return vo - 1
    if nl == 1 and "REdgeTo" not in op:
        return 0
    if vo == 1:
        return {"m_opDiffNodeToREdge": 0}.get(op, 1)
    return {"m_opInterpNodeToREdge": vo - 1, "m_opInterpREdgeToNode": vo, "m_opDiffNodeToNode": vo - 1, "m_opDiffNodeToREdge": vo - 1, "m_opDiffREdgeToNode": vo, "m_opDiffREdgeToREdge": vo}[op]


def term(p):
    """the term of a polynomial that is a single atom."""
    (mono, _), = p.t.items()
    return sym._terms[mono[0][0]]


def polys(kind, d):
    """coefficient lists of the functions an operator has to treat exactly, of degree at most d."""
    if kind == "all":
        return [[Fraction(0)] * k + [Fraction(1)] for k in range(d + 1)]
    if kind == "zero":            # vanishing at 0 and 1
        return [[Fraction(0)] * (k + 1) + [Fraction(1), Fraction(-1)] for k in range(d - 1)]
    out = [[Fraction(1)]]         # no flux at 0 and 1: derivative x (1 - x) x^k
    for k in range(d - 2):
        p = [Fraction(0)] * (k + 4)
        p[k + 2] += Fraction(1, k + 2)
        p[k + 3] -= Fraction(1, k + 3)
        out.append(p)
    return out


def at(p, x):
    return sum(a * x ** k for k, a in enumerate(p))


def diff(p, n):
    for _ in range(n):
        p = [k * a for k, a in enumerate(p)][1:] or [Fraction(0)]
    return p


def run(c):
    prog = Program(sources())
    W = lambda f: (f.file, f.line, f.qual)
    fv = prog.fn("GridGLL::InitializeVerticalCoordinate")
    fi = prog.fn("GridGLL::Initialize")
    cases = [("FiniteElement", "Lorenz", 1, 4), ("FiniteElement", "Lorenz", 2, 6), ("FiniteElement", "CharneyPhillips", 3, 6), ("FiniteElement", "Lorenz", 4, 8), ("FiniteElement", "Levels", 3, 9), ("FiniteElement", "Lorenz", 2, 2),
             ("FiniteElement", "Lorenz", 1, 1), ("FiniteElement", "Lorenz", 4, 4), ("FiniteVolume", "Lorenz", 2, 5), ("FiniteVolume", "CharneyPhillips", 4, 6), ("FiniteVolume", "Levels", 4, 7), ("FiniteElement", "Interfaces", 3, 5), ("FiniteElement", "Interfaces", 4, 7), ("FiniteElement", "Lorenz", 1, 2)]
    if c.tier == "thorough":
        cases += [("FiniteElement", s, v, v * e) for s in ("Lorenz", "CharneyPhillips", "Levels") for v in (1, 2, 3, 4, 5, 6) for e in (1, 2, 3, 4) if 1 < v * e <= (15 if s == "Lorenz" else 10)]
        cases += [("FiniteElement", "Interfaces", v, (v - 1) * e + 1) for v in (2, 3, 4, 5) for e in (1, 2, 3)]
        cases += [("FiniteVolume", s, v, n) for s in ("Lorenz", "CharneyPhillips", "Levels") for v in (2, 4) for n in (4, 5, 8)]
        cases = list(dict.fromkeys(cases))

    def vertical(disc, stag, vo, nl, stretch=None):
        K = Column(prog, c, 4, vo, nl, disc, stag)
        if stretch is None:
            K.vals[K.F("Grid::m_pVerticalStretchF")] = ("null",)
        else:
            K.vals[K.F("Grid::m_pVerticalStretchF")] = ("ptr", ("G", "stretch"))
            K.stretch = stretch
        K.call("GridGLL::InitializeVerticalCoordinate")
        return K

    def coordinate(K, disc, stag, vo, nl, F):
        """None, or what is wrong with the levels and interfaces."""
        L, A = K.array("Grid::m_dREtaLevels", nl), K.array("Grid::m_dREtaLevelsNormArea", nl)
        if any(b <= a for a, b in zip(L, L[1:])):
            return "levels not increasing"
        if any(a <= 0 for a in A) or abs(sum(A) - 1) > TOL:
            return "areas of levels sum to %.12g" % float(sum(A))
        n = 1 if disc == "FiniteVolume" else vo
        ends = []
        if stag == "Interfaces":
            n -= 1
            if abs(L[0]) > TOL or abs(L[-1] - 1) > TOL:
                return "end levels not at the boundaries"
            el = (nl - 1) // n
        else:
            I_, B = K.array("Grid::m_dREtaInterfaces", nl + 1), K.array("Grid::m_dREtaInterfacesNormArea", nl + 1)
            if abs(I_[0]) > TOL or abs(I_[-1] - 1) > TOL:
                return "end interfaces not at the boundaries"
            if any(not a < l < b for a, l, b in zip(I_, L, I_[1:])):
                return "levels and interfaces do not alternate"
            if any(b <= 0 for b in B) or abs(sum(B) - 1) > TOL:
                return "areas of interfaces sum to %.12g" % float(sum(B))
            el = nl // n
            for a in range(el + 1):
                if abs(I_[a * n] - F(Fraction(a, el))) > TOL:
                    return "element edge %d not at the stretched position" % a
            for k, x, w, d in (("interfaces", I_, B, 2 * n - 1), ("levels", L, A, 2 * n - 1)):
                for g in range(d + 1):
                    if abs(sum(v * y ** g for v, y in zip(w, x)) - Fraction(1, g + 1)) > TOL:
                        return "areas of %s do not integrate degree %d" % (k, g)
            for nm, ref, m in (("Levels", L, nl), ("Interfaces", I_, nl + 1)):
                if K.array("Grid::m_dREtaStretch" + nm, m) != ref:
                    return "stretched %s differ" % nm.lower()
        if stag == "Interfaces":
            for a in range(el + 1):
                if abs(L[a * n] - F(Fraction(a, el))) > TOL:
                    return "element edge %d not at the stretched position" % a
            for g in range(2 * n):
                if abs(sum(v * y ** g for v, y in zip(A, L)) - Fraction(1, g + 1)) > TOL:
                    return "areas of levels do not integrate degree %d" % g
        return None

    # ---- stretching functions
    stretches = {}
    ks = sorted(k for k in prog.classes if k.startswith("VerticalStretch") and k != "VerticalStretchFunction")
    for k in ks:
        f = prog.fn(k + "::operator()")

        def F(x, f=f):
            I = new_interp(prog)
            O, D = ("G", "o"), ("G", "d")
            I.place_types[O] = I.place_types[D] = "double"
            s, _ = run_function(I, f, ("G", "stretch"), dict(zip([q[1] for q in f.params], [num(x), ("PLACE", O), ("PLACE", D)])), State())
            c.functions.update(I.fnlog)
            return number(I.load(s, O, "f")), number(I.load(s, D, "f"))
        pts = [Fraction(i, 41) for i in range(42)]
        v = [F(x) for x in pts]
        bad = None
        if abs(v[0][0]) > TOL or abs(v[-1][0] - 1) > TOL:
            bad = "range is not [0, 1]"
        elif any(b[0] <= a[0] for a, b in zip(v, v[1:])):
            bad = "not increasing"
        else:
            h = Fraction(1, 10 ** 6)
            for x in pts[1:-1]:
                if abs((F(x + h)[0] - F(x - h)[0]) / (2 * h) - F(x)[1]) > Fraction(1, 10 ** 4):
                    bad = "derivative wrong at %.3g" % float(x)
        c.ob("stretch", W(f), bad is None, "%s: increasing from 0 to 1 with its derivative%s" % (k, ": " + bad if bad else ""), "stretch|" + k)
        stretches[k] = F

    # ---- vertical coordinate
    for case in cases:
        for st in [None] + ks:
            key = "%s|%s|%d|%d|%s" % (case + (st,))
            try:
                K = vertical(*case, stretch=st)
                bad = coordinate(K, *case, F=(lambda x: x) if st is None else (lambda x: stretches[st](x)[0]))
            except Undefined as e:
                c.ob("coordinate", W(fv), None, "%s: %s" % (key, e), "coordinate|" + key)
                continue
            c.ob("coordinate", W(fv), bad is None, "%s, %s staggering, order %d, %d levels%s: levels, interfaces and areas%s" % (case + (", " + st if st else "", ": " + bad if bad else "")), "coordinate|" + key)

    # ---- operators
    for case in cases:
        disc, stag, vo, nl = case
        for st in [None] + [k for k in ks if k == "VerticalStretchCubic"]:
            key = "%s|%s|%d|%d|%s" % (case + (st,))
            try:
                K = vertical(*case, stretch=st)
                K.watch = True
                K.call("GridGLL::Initialize")
            except Undefined as e:
                c.ob("exact", W(fi), False if isinstance(e, Singular) else None, "%s: %s" % (key, e), "exact|" + key)
                continue
            tag = "%s, %s staggering, order %d, %d levels%s" % (case + (", " + st if st else "",))
            c.ob("bounds", W(fi), not K.out, "%s: accesses stay inside the arrays (%d)%s" % (tag, K.seen, ": " + K.out[0] if K.out else ""), "bounds|" + key)
            X = {"L": K.array("Grid::m_dREtaLevels", nl), "I": K.array("Grid::m_dREtaInterfaces", nl + 1)}
            for op, a, b, d in OPS:
                try:
                    R = K.op(op)
                except Undefined as e:
                    c.ob("exact", W(fi), None, "%s: %s: %s" % (tag, op, e), "exact|%s|%s" % (op, key))
                    continue
                if R is None:
                    c.ob("exact", W(fi), stag == "Interfaces" or op == "m_opDiffNodeToNodeZeroBoundaries", "%s: %s set up" % (tag, op), "exact|%s|%s" % (op, key))
                    continue
                bad = None
                for i, (s, e, row) in enumerate(R):
                    if not 0 <= s <= e <= len(row):
                        bad = bad or "row %d applies to columns %d to %d of %d" % (i, s, e - 1, len(row))
                        continue
                    if any(abs(v) > TOL for j, v in enumerate(row) if not s <= j < e):
                        bad = bad or "row %d has coefficients outside its range" % i
                    sets = [("all", degree(op, disc, stag, vo, nl, i, len(R), st is not None))] if op != "m_opDiffNodeToNodeZeroBoundaries" else [("zero", vo - 1)]
                    if d == 2 and stag != "Interfaces":
                        sets.append(("noflux", (1 if disc == "FiniteVolume" else vo) - (1 if a == "L" else 0)))
                    for kind, dg in sets:
                        for p in polys(kind, dg):
                            got = sum(row[j] * at(p, X[a][j]) for j in range(s, e))
                            if abs(got - at(diff(p, d), X[b][i])) > TOL * 1000:
                                bad = bad or "row %d wrong for the polynomial %s" % (i, [str(q) for q in p])
                if d == 2:
                    A = K.array("Grid::m_dREta%sNormArea" % ("Levels" if a == "L" else "Interfaces"), len(R))
                    cons = next((j for j in range(len(R)) if abs(sum(A[i] * R[i][2][j] for i in range(len(R)))) > TOL * 100), None)
                    c.ob("conserve", W(fi), cons is None, "%s: %s has no net source%s" % (tag, op, "" if cons is None else ", but column %d has" % cons), "conserve|%s|%s" % (op, key))
                c.ob("exact", W(fi), bad is None, "%s: %s exact to its degree in all rows%s" % (tag, op, ": " + bad if bad else ""), "exact|%s|%s" % (op, key))
    # ---- application of an operator
    obj = ("G", "op")
    M, B, E = [("F", obj, "LinearColumnOperator::" + x) for x in ("m_dCoeff", "m_iBegin", "m_iEnd")]
    rng = [(0, 2), (1, 4), (3, 3), (0, 4)]
    apps = [f for q in ("LinearColumnOperator::Apply", "LinearColumnOperator::ApplyWithRef") for f in prog.byqual.get(q, [])]
    for f in apps:
        names = [p[1] for p in f.params]
        for si, so in (((1, 1), (3, 2)) if "nStrideIn" in names or "nStride" in names else ((1, 1),)):
            def hook(I, st, fr, n, key, q, place, args):
                if (q or "").startswith("DataArray") and place == M and q.endswith(("GetRows", "GetColumns")):
                    return num(4)
                return NotImplemented
            I = new_interp(prog, call_hook=hook)
            st = State()
            for k, (b, e) in enumerate(rng):
                I.store_to(st, ("E", B, (num(k),)), num(b), None)
                I.store_to(st, ("E", E, (num(k),)), num(e), None)
            X = lambda nm: ("ptr", ("E", ("G", nm), (ZERO,)), "elem")
            vals = {"dColumnIn": X("in"), "dColumnOut": X("out"), "dColumnRefIn": X("rin"), "dColumnRefOut": X("rout") if any("*" in p[2] for p in f.params if p[1] == "dColumnRefOut") else atom(("ref",)),
                    "nStride": num(si), "nStrideIn": num(si), "nStrideOut": num(so), "iRout": num(1)}
            bad = None
            try:
                args = {p: vals[p] for p in names}
                s, r = run_function(I, f, obj, args, st)
                c.functions.update(I.fnlog)
                el = lambda nm, i: I.load_elem(State(), ("E", ("G", nm), (num(i),)), "f")
                cf = lambda k, l: I.load_elem(State(), ("E", M, (num(k), num(l))), "f")
                for k in ([1] if "iRout" in names else range(4)):
                    want = ZERO
                    if "dColumnRefOut" in names:
                        want = vals["dColumnRefOut"] if isinstance(vals["dColumnRefOut"], Poly) else el("rout", k * so)
                    for l in range(*rng[k]):
                        x = el("in", l * si)
                        if "dColumnRefIn" in names:
                            x = sub(x, el("rin", l * si))
                        want = add(want, mul(cf(k, l), x))
                    got = r if "iRout" in names else I.load_elem(s, ("E", ("G", "out"), (num(k * so),)), "f")
                    if sub(got, want) != ZERO:
                        bad = bad or "row %d gives %s" % (k, got)
            except (Undefined, KeyError) as e:
                c.ob("apply", W(f), None, "%s: %s" % (f.qual, e), "apply|%s|%s|%d" % (f.qual, ",".join(names), si))
                continue
            c.ob("apply", W(f), bad is None, "%s(%s), strides %d and %d: every row is the sum over its range%s" % (f.qual, ", ".join(names), si, so, ": " + bad if bad else ""), "apply|%s|%s|%d" % (f.qual, ",".join(names), si))
    f = prog.fn("LinearColumnOperator::ComposeWith")
    K = Column(prog, c, 4, 1, 2, "FiniteElement", "Lorenz")
    I, st = K.I, State()
    o2 = ("G", "op2")
    M2 = ("F", o2, "LinearColumnOperator::m_dCoeff")
    A1, A2 = [[2, 0, 0], [0, 3, 5], [7, 0, 11], [0, 0, 0]], [[0, 13], [17, 0], [19, 23]]
    for m_, v in ((M, A1), (M2, A2)):
        K.sizes[m_] = len(v), len(v[0])
        for i, row in enumerate(v):
            for j, x in enumerate(row):
                I.store_to(st, ("E", m_, (num(i), num(j))), num(x), None)
    s, _ = run_function(I, f, obj, {f.params[0][1]: ("PLACE", o2)}, st)
    c.functions.update(I.fnlog)
    bad = None
    try:
        for i in range(4):
            want = [sum(A1[i][k] * A2[k][j] for k in range(3)) for j in range(2)]
            got = [number(I.load_elem(s, ("E", M, (num(i), num(j))), "f")) for j in range(2)]
            b, e = [int(number(I.load_elem(s, ("E", x, (num(i),)), "i"))) for x in (B, E)]
            if got != want or any(want[j] for j in range(2) if not b <= j < e):
                bad = "row %d is %s on columns %d to %d" % (i, [float(v) for v in got], b, e - 1)
        c.ob("apply", W(f), bad is None, "composition is the product of the operators%s" % (": " + bad if bad else ""), "apply|compose")
    except Undefined as e:
        c.ob("apply", W(f), None, "composition: %s" % e, "apply|compose")

    # ---- penalty on jumps between elements
    f = prog.fn("LinearColumnDiscPenaltyFEM::Apply")
    for case in cases:
        disc, stag, vo, nl = case
        if stag == "Interfaces":
            continue
        for st_ in [None, "VerticalStretchCubic"]:
            if disc == "FiniteVolume" and st_:
                continue
            key = "%s|%s|%d|%d|%s" % (case + (st_,))
            tag = "%s, %s staggering, order %d, %d levels%s" % (case + (", " + st_ if st_ else "",))
            K = vertical(*case, stretch=st_)
            try:
                K.only = ("GridGLL::m_opPenaltyNodeToNode",)
                K.call("GridGLL::Initialize")
                n = 1 if disc == "FiniteVolume" else vo
                el = nl // n
                X, A = K.array("Grid::m_dREtaLevels", nl), K.array("Grid::m_dREtaLevelsNormArea", nl)

                def apply(si, so):
                    s = K.st.fork()
                    nm = dict(zip([p[1] for p in f.params], ["w", "in", "out", None, None]))
                    args = {p: ("ptr", ("E", ("G", v), (ZERO,)), "elem") if v else None for p, v in nm.items()}
                    args[f.params[3][1]], args[f.params[4][1]] = num(si), num(so)
                    s, _ = run_function(K.I, f, K.F("GridGLL::m_opPenaltyNodeToNode"), args, s)
                    out = []
                    for k in range(nl):
                        v = K.I.load_elem(s, ("E", ("G", "out"), (num(k * so),)), "f")
                        old = K.I.load_elem(State(), ("E", ("G", "out"), (num(k * so),)), "f")
                        out.append(sub(v, old))
                    return out
                el_in = lambda k, si=1: K.I.load_elem(State(), ("E", ("G", "in"), (num(k * si),)), "f")
                small = lambda p: all(abs(v) <= TOL * 100 for v in p.t.values())
                out = apply(1, 1)
                bad = None
                tot = ZERO
                for a, v in zip(A, out):
                    tot = add(tot, scale(v, a))
                if not small(tot):
                    bad = "the penalty has a net source"
                for g in range(vo if disc == "FiniteElement" else 1):
                    for k, v in enumerate(out):
                        if not small(subst(v, {term(el_in(j)): num(X[j] ** g) for j in range(nl)})):
                            bad = bad or "level %d: continuous data (degree %d) is penalised" % (k, g)
                o2_ = apply(3, 2)
                for k in range(nl):
                    if not small(sub(subst(o2_[k], {term(el_in(j, 3)): el_in(j) for j in range(nl)}), out[k])):
                        bad = bad or "level %d: strides not respected" % k
                if el > 1 and all(small(v) for v in out):
                    bad = bad or "no penalty on jumps"
            except Undefined as e:
                c.ob("penalty", W(f), None, "%s: %s" % (tag, e), "penalty|" + key)
                continue
            c.ob("penalty", W(f), bad is None, "%s: the jump penalty conserves, and vanishes on continuous data%s" % (tag, ": " + bad if bad else ""), "penalty|" + key)
    c.need("coordinate", 40)
    c.need("exact", 100)
    c.need("conserve", 30)
    c.need("bounds", 12)
    c.need("apply", 10)
    c.need("penalty", 12)
    c.need("stretch", 3)
    return c.finish("proof", "The set-up of the vertical coordinate and of all column operators is folded to constants for each discretization, staggering, order and number of levels listed; the coefficients are compared with the exact conditions they have to meet.",
                    {"stretch": "stretching functions increase from 0 to 1 and report their derivative",
                     "coordinate": "levels and interfaces increase, alternate and span [0, 1]; element edges at the stretched positions; areas integrate polynomials exactly",
                     "exact": "every row of every interpolation and differentiation operator is exact for polynomials up to its formal degree; second derivatives with no flux at the boundaries",
                     "conserve": "second derivatives have no net source",
                     "bounds": "array accesses during set-up stay inside the arrays",
                     "apply": "applying an operator sums coefficients times data over the stored range, with strides and reference state; composition is the product",
                     "penalty": "the penalty on jumps conserves and vanishes on continuous data"},
                    assumptions=["LAPACK DGESV solves the system it is given (column-major)"])
