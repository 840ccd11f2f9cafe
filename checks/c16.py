"""C16: one explicit horizontal step is the spectral element discretisation of the vector invariant equations."""
from dyn import *
import itertools

RANGES = {"m_dataTopography": (0.02, 0.3), "m_datavecTracers": (0.2, 0.9), "m_dDxBasis1D": (-1, 1), "m_dStiffness1D": (-1, 1), "'op'": (-1, 1)}
CLASSES = ["HorizontalDynamicsFEM"]
GLLW = {2: (0.5, 0.5), 3: (1 / 6., 4 / 6., 1 / 6.), 4: (1 / 12., 5 / 12., 5 / 12., 1 / 12.)}


class Outside(Undefined):
    pass


class Values(dict):
    """Values of the state; one that the arrays do not hold is a finding, not an accident of the analysis."""

    def __missing__(self, k):
        raise Outside("the state has no element %s of %s, which is in the interior of the patch" % (k[2], k[0]))


class Case(object):
    def __init__(self, prog, c, cls, pcls, **kw):
        self.D = D = Dyn(prog, c, cls, pcls, **kw)
        self.P, self.n, self.nl = D.P, D.n, D.nl
        D.member("m_nHorizontalOrder", num(D.n))
        D.member("m_nHyperviscosityOrder", num(4))
        D.call("Initialize")
        self.dt = atom(("dt",))
        self.before = Values()
        for inst in range(self.P.ninst):
            for w in ("node", "redge", "tracer"):
                for ix, v in D.snap(w, inst).items():
                    self.before[w, inst, ix] = v

    def step(self, name):
        f = self.D.prog.fn(self.D.cls + "::" + name)
        p = [x[1] for x in f.params]
        self.D.call(f, {p[0]: num(1), p[1]: ZERO, p[2]: ("PLACE", ("G", "time")), p[3]: self.dt})
        self.after = {}
        for (w, inst, ix) in self.before:
            self.after[w, inst, ix] = self.P.get(self.D.state(w, inst), *ix)

    def elements(self):
        n = self.n
        for a in range(self.P.na):
            for b in range(self.P.nb):
                yield [[(1 + a * n + i, 1 + b * n + j) for j in range(n)] for i in range(n)]


class Oracle(object):
    """the step evaluated at one draw."""

    def __init__(self, C, seed):
        self.C, self.D, self.P = C, C.D, C.P
        self.e = e = Env(C.D, seed, RANGES)
        self.dt = e(C.dt)
        self.v = lambda w, inst, *ix: e(C.before[w, inst, ix])
        self.A = lambda nm, *ix: e(self.P.get(self.P.arr(nm), *ix))
        self.g = e(atom(("grav",)))
        self.dA = e(self.P.I.load(self.P.st, self.P.F("GridPatchGLL::m_dElementDeltaA"), "d"))
        self.dB = e(self.P.I.load(self.P.st, self.P.F("GridPatchGLL::m_dElementDeltaB"), "d"))
        self.exp = {}

    def da(self, F, i, j, m="D"):
        return sum(F[s][j] * self.e.tab(m, s, i) for s in range(self.C.n)) / self.dA

    def db(self, F, i, j, m="D"):
        return sum(F[i][s] * self.e.tab(m, s, j) for s in range(self.C.n)) / self.dB

    def fd(self, FA, FB, i, j):
        """weak divergence of a flux."""
        n = self.C.n
        return -sum(FA[s][j] * self.e.tab("S", i, s) for s in range(n)) / self.dA - sum(FB[i][s] * self.e.tab("S", j, s) for s in range(n)) / self.dB

    def grid(self, f):
        n = self.C.n
        return [[f(i, j) for j in range(n)] for i in range(n)]

    def shallow(self):
        v, A, E = self.v, self.A, self.exp
        for el in self.C.elements():
            q = lambda w, cc: self.grid(lambda i, j: v(w, 1, cc, el[i][j][0], el[i][j][1], 0))
            M = lambda nm, *r: self.grid(lambda i, j: A(nm, el[i][j][0], el[i][j][1], *r))
            U, V, H = q("node", 0), q("node", 1), q("node", 2)
            J, Z, f = M("m_dataJacobian2D"), M("m_dataTopography"), M("m_dataCoriolisF")
            ga, gb = [M("m_dataContraMetric2DA", k) for k in (0, 1)], [M("m_dataContraMetric2DB", k) for k in (0, 1)]
            ua = self.grid(lambda i, j: ga[0][i][j] * U[i][j] + ga[1][i][j] * V[i][j])
            ub = self.grid(lambda i, j: gb[0][i][j] * U[i][j] + gb[1][i][j] * V[i][j])
            B = self.grid(lambda i, j: 0.5 * (ua[i][j] * U[i][j] + ub[i][j] * V[i][j]) + self.g * H[i][j])
            for i in range(self.C.n):
                for j in range(self.C.n):
                    x, y = el[i][j]
                    z = self.da(V, i, j) - self.db(U, i, j) + f[i][j] * J[i][j]
                    E["node", (0, x, y, 0)] = self.dt * (z * ub[i][j] - self.da(B, i, j))
                    E["node", (1, x, y, 0)] = self.dt * (-z * ua[i][j] - self.db(B, i, j))
                    flux = lambda Q: self.fd(self.grid(lambda s, t: J[s][t] * ua[s][t] * Q[s][t]), self.grid(lambda s, t: J[s][t] * ub[s][t] * Q[s][t]), i, j)
                    E["node", (2, x, y, 0)] = -self.dt / J[i][j] * flux(self.grid(lambda s, t: H[s][t] - Z[s][t]))
                    for cc in range(self.P.ntr):
                        E["tracer", (cc, x, y, 0)] = -self.dt / J[i][j] * flux(q("tracer", cc))

    def primitive(self):
        v, A, E, P, D = self.v, self.A, self.exp, self.P, self.D
        n, nl = self.C.n, self.C.nl
        wloc = "redge" if P.loc(3) == P.REDGE else "node"
        cp, R, p0 = 3.1, 0.9, 1.15
        exner = lambda x: cp * (R * x / p0) ** (R / (cp - R))
        for el in self.C.elements():
            def col(cc, x, y):
                if wloc == "redge" and cc == 3:
                    edge = [v("redge", 1, 3, x, y, k) for k in range(nl + 1)]
                    return [self.e.op("m_opInterpREdgeToNode", k, edge) for k in range(nl)]
                return [v("node", 1, cc, x, y, k) for k in range(nl)]
            S = self.grid(lambda i, j: [col(cc, *el[i][j]) for cc in range(5)])
            lev = []
            for k in range(nl):
                M = lambda nm, *r: self.grid(lambda i, j: A(nm, el[i][j][0], el[i][j][1], k, *r))
                M2 = lambda nm, *r: self.grid(lambda i, j: A(nm, el[i][j][0], el[i][j][1], *r))
                q = lambda cc: self.grid(lambda i, j: S[i][j][cc][k])
                U, V, T, Wn, Rh = [q(cc) for cc in range(5)]
                J, J2, f = M("m_dataJacobian"), M2("m_dataJacobian2D"), M2("m_dataCoriolisF")
                aa, ab, ax = [M("m_dataContraMetricA", r) for r in range(3)]
                bb, bx, xx = M("m_dataContraMetricB", 1), M("m_dataContraMetricB", 2), M("m_dataContraMetricXi", 2)
                dR = [M("m_dataDerivRNode", r) for r in range(2)]
                con = lambda a, b, w: self.grid(lambda i, j: a[i][j] * U[i][j] + b[i][j] * V[i][j] + w[i][j] * Wn[i][j])
                ua, ub, ux = con(aa, ab, ax), con(ab, bb, bx), con(ax, bx, xx)
                K = self.grid(lambda i, j: 0.5 * (ua[i][j] * U[i][j] + ub[i][j] * V[i][j] + ux[i][j] * Wn[i][j]))
                Pi = self.grid(lambda i, j: exner(T[i][j]))
                xi = {}
                for i in range(n):
                    for j in range(n):
                        x, y = el[i][j]
                        dxU = self.e.op("m_opDiffNodeToNode", k, S[i][j][0])
                        dxV = self.e.op("m_opDiffNodeToNode", k, S[i][j][1])
                        za, zb = self.db(Wn, i, j) - dxV, dxU - self.da(Wn, i, j)
                        zx = self.da(V, i, j) - self.db(U, i, j) + f[i][j] * J2[i][j]
                        grad = T[i][j] / Rh[i][j]
                        du = ub[i][j] * zx - ux[i][j] * zb - self.da(K, i, j) - grad * self.da(Pi, i, j) - self.g * dR[0][i][j]
                        dv = ux[i][j] * za - ua[i][j] * zx - self.db(K, i, j) - grad * self.db(Pi, i, j) - self.g * dR[1][i][j]
                        xi[i, j] = -ua[i][j] * self.da(Wn, i, j) - ub[i][j] * self.db(Wn, i, j)
                        E["node", (0, x, y, k)] = self.dt * du
                        E["node", (1, x, y, k)] = 0.0 if D.xz else self.dt * dv
                        flux = lambda Q: self.fd(self.grid(lambda s, t: J[s][t] * ua[s][t] * Q[s][t]), self.grid(lambda s, t: J[s][t] * ub[s][t] * Q[s][t]), i, j)
                        E["node", (2, x, y, k)] = -self.dt / J[i][j] * flux(T)
                        E["node", (4, x, y, k)] = -self.dt / J[i][j] * flux(Rh)
                        for cc in range(P.ntr):
                            Q = self.grid(lambda s, t: v("tracer", 1, cc, el[s][t][0], el[s][t][1], k))
                            F = [self.grid(lambda s, t: J[s][t] * u[s][t] * Q[s][t]) for u in (ua, ub)]
                            if P.given["m_fHasUniformDiffusion"] == ("T",):
                                m = self.grid(lambda s, t: Q[s][t] / Rh[s][t])
                                nu = self.e(atom(("nuS",)))
                                for G, (p, r) in zip(F, ((aa, ab), (ab, bb))):
                                    for s in range(n):
                                        for t in range(n):
                                            G[s][t] -= nu * J[s][t] * Rh[s][t] * (p[s][t] * self.da(m, s, t) + r[s][t] * self.db(m, s, t))
                            E["tracer", (cc, x, y, k)] = -self.dt / J[i][j] * self.fd(F[0], F[1], i, j)
                        if wloc == "node":
                            E["node", (3, x, y, k)] = self.dt * xi[i, j] if 0 < k < nl - 1 else 0.0 if k else self.dt * -(ax[i][j] * du + bx[i][j] * (dv)) / xx[i][j]
                lev.append(xi)
            if wloc == "redge":
                for i in range(n):
                    for j in range(n):
                        x, y = el[i][j]
                        for k in range(1, nl):
                            E["redge", (3, x, y, k)] = self.dt * self.e.op("m_opInterpNodeToREdge", k, [L[i, j] for L in lev])
                        h = []
                        for cc in (0, 1):
                            new = [v("node", 0, cc, x, y, k) + E["node", (cc, x, y, k)] for k in range(nl)]
                            h.append(self.e.op("m_opInterpNodeToREdge", 0, new))
                        X = [A("m_dataContraMetricXiREdge", x, y, 0, r) for r in range(3)]
                        E["redge", (3, x, y, 0)] = -(X[0] * h[0] + X[1] * h[1]) / X[2] - v("redge", 0, 3, x, y, 0)


def conserve(C, o, sw):
    """element sums of weight * jacobian * change for every conserved quantity: None or what fails, number of sums."""
    w, n = GLLW[C.n], 0
    cons = [("node", 2, "H")] if sw else [("node", 2, "rho theta"), ("node", 4, "rho")]
    cons += [("tracer", k, "tracer %d" % k) for k in range(C.P.ntr)]
    for el in C.elements():
        for arr, cc, nm in cons:
            for k in range(C.nl):
                t = []
                for i in range(C.n):
                    for j in range(C.n):
                        x, y = el[i][j]
                        J = o.A("m_dataJacobian2D", x, y) if sw else o.A("m_dataJacobian", x, y, k)
                        t.append(w[i] * w[j] * J * (o.e(C.after[arr, 0, (cc, x, y, k)]) - o.e(C.before[arr, 0, (cc, x, y, k)])))
                n += 1
                if abs(sum(t)) > 1e-8 * sum(abs(x) for x in t) or not any(t):
                    return "%s: the changes on level %d of the element at %s sum up to %g of %g" % (nm, k, el[0][0], sum(t), sum(abs(x) for x in t)), n
    return None, n


def explicit(c, prog, cls, sw, diff, same):
    """the calls one StepExplicit makes, in order."""
    D = Dyn(prog, c, cls, "GridPatchCSGLL", sw=sw, udiff=diff)
    D.member("m_nHorizontalOrder", num(D.n))
    calls = []
    names = ("StepShallowWater", "StepNonhydrostaticPrimitive", "ApplyVectorHyperdiffusion", "ApplyScalarHyperdiffusion", "FilterNegativeTracers")

    def hook(I, st, fr, n, key, q, place, args):
        m = q.split("::")[-1]
        if q.startswith(cls + "::") and m in names:
            calls.append((m,) + tuple(I.lv(x, st, fr) if "Time" in t else I.ev(x, st, fr) for x, (_, _, t) in zip(args, prog.fns[key].params)))
            return ("opq", ("void",))
        return NotImplemented
    D.P.extra.insert(0, hook)
    f = prog.fn(cls + "::StepExplicit")
    p = [x[1] for x in f.params]
    T, dt = ("G", "time"), atom(("dt",))
    src, dst = num(1), num(1 if same else 0)
    a = {p[0]: src, p[1]: dst, p[2]: ("PLACE", T), p[3]: dt}
    try:
        D.call(f, a)
    except Undefined:
        return None if same else "refuses", calls
    if same:
        return "initial and update instance may be the same", calls
    want = [("StepShallowWater" if sw else "StepNonhydrostaticPrimitive", src, dst, T, dt)]
    F_, T_ = ("F",), ("T",)
    nV, nS = atom(("nuV",)), atom(("nuS",))
    ref = num(-1)
    if diff:
        V = "ApplyVectorHyperdiffusion"
        want += [(V, src, dst, dt, neg(nV), neg(nV), F_), (V, ref, dst, dt, nV, nV, F_)]
        if not sw:
            want += [("ApplyScalarHyperdiffusion", src, dst, dt, nS, F_, num(2), T_), ("ApplyScalarHyperdiffusion", src, dst, dt, nV, F_, num(3), T_)]
    end = ("FilterNegativeTracers", dst)
    norm = lambda t: tuple(str(x) for x in t)
    got = [norm(x) for x in calls]
    if not got or got[-1] != norm(end):
        return "the tracer filter is not the last thing done", calls
    if got[0] != norm(want[0]):
        return "starts with %s, expected %s" % (got[0], norm(want[0])), calls
    if sorted(got[1:-1]) != sorted(norm(x) for x in want[1:]):
        return "diffusion calls %s, expected %s" % (got[1:-1], [norm(x) for x in want[1:]]), calls
    return None, calls


def run(c):
    prog = Program(sources())
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    NP = 2 if c.tier == "quick" else 5
    cases = [("GridPatchCSGLL", dict(sw=True, na=2, nb=1, order=2, ntr=2)), ("GridPatchCartesianGLL", dict(sw=True, na=1, nb=2, order=3, ntr=0, panel=0)),
             ("GridPatchCSGLL", dict(na=1, nb=2, order=2, ntr=1)), ("GridPatchCartesianGLL", dict(na=2, nb=1, order=2, ntr=2, panel=0, udiff=True)),
             ("GridPatchCartesianGLL", dict(na=1, nb=1, order=2, nlev=1, ntr=0, panel=0, xz=True)), ("GridPatchCSGLL", dict(na=2, nb=1, order=2, nlev=3, ntr=0, stag="Levels"))]
    if c.tier == "thorough":
        cases += [("GridPatchCSGLL", dict(sw=True, na=2, nb=2, order=4, ntr=1)), ("GridPatchCSGLL", dict(na=2, nb=1, order=3, nlev=3, ntr=1, udiff=True)), ("GridPatchCartesianGLL", dict(na=1, nb=2, order=3, nlev=3, ntr=1, panel=0, stag="Levels"))]
    for i in ((3, 4) if c.tier == "quick" else (0, 3, 4, -1)):
        pc, kw = cases[i] if i else cases[1]
        cases.append((pc, dict(kw, symtab=False, order=2 + i % 2, ntr=1, nlev=2)) if not kw.get("sw") else (pc, dict(kw, symtab=False, ntr=1)))
    cases.append(("GridPatchCSGLL", dict(sw=True, na=1, nb=1, order=4, ntr=1, symtab=False)))
    for cls in CLASSES:
        for pcls, kw in cases:
            sw = kw.get("sw", False)
            tag = "%s on %s, %s" % (cls, pcls, ", ".join("%s %s" % kv for kv in sorted(kw.items())))
            C = Case(prog, c, cls, pcls, **kw)
            step = "StepShallowWater" if sw else "StepNonhydrostaticPrimitive"
            q = cls + "::" + step
            C.step(step)
            c.ob("bounds", W(q), C.P.bad is None, "%s: %s" % (tag, C.P.bad or "all elements inside of the arrays"), "bounds|" + tag)
            O = [Oracle(C, s) for s in range(NP)]
            fails, cnt = {}, {}
            for o in O:
                MEMO.clear()
                try:
                    (o.shallow if sw else o.primitive)()
                except Outside as e:
                    fails["bounds", "extent of the state"] = str(e)
                    cnt["bounds", "extent of the state"] = 1
                    O = []
                    break
                for (w, inst, ix), b in C.before.items():
                    name = "UVTWR"[ix[0]] if w != "tracer" else "tracer"
                    if w != "tracer" and not sw:
                        live = (C.P.loc(ix[0]) == C.P.REDGE) == (w == "redge")
                    else:
                        live = w != "redge"
                    a = C.after[w, inst, ix]
                    if inst == 1 and not live:
                        continue
                    kind = ("initial", "initial state unchanged") if inst != 0 else None
                    want = 0.0
                    if kind is None:
                        x = o.exp.get((w, ix)) if live else None
                        if x is None:
                            kind = ("others", "entries that are not stepped unchanged")
                        else:
                            kind = (name, "update of component %s" % name)
                            want = x
                    fails.setdefault(kind, None)
                    cnt[kind] = cnt.get(kind, 0) + 1
                    try:
                        got = o.e(a) - o.e(b)
                    except Undefined as e:
                        fails[kind] = "%s%s: %s" % (w, ix, e)
                        continue
                    if not close(got, want, 0.3):
                        fails[kind] = fails[kind] or "%s%s of instance %d changes by %.12g, the discretisation gives %.12g" % (w, ix, inst, got, want)
            if O and not kw.get("symtab", True):
                bad = None
                for o in O:
                    MEMO.clear()
                    try:
                        r, k = conserve(C, o, sw)
                    except Undefined as e:
                        r, k = str(e), 0
                    bad = bad or r
                c.ob("conserve", W(q), bad is None, "%s: every element conserves its mass, thermodynamic and tracer integrals (%d sums)%s" % (tag, k, "" if bad is None else ": " + bad), "conserve|" + tag)
            for kind, f in sorted(fails.items()):
                c.ob(kind[0] if kind[0] == "bounds" else "step" if kind[0] not in ("initial", "others") else "frame", W(q), f is None, "%s: %s (%d values)%s" % (tag, kind[1], cnt[kind], "" if f is None else ": " + f), "%s|%s|%s" % (kind[0], cls, tag))
        for sw in (False, True):
            for diff in (False, True):
                for same in (False, True):
                    r, calls = explicit(c, prog, cls, sw, diff, same)
                    tag = "%s equations, %s uniform diffusion%s" % ("shallow water" if sw else "nonhydrostatic", "with" if diff else "without", ", same instance" if same else "")
                    c.ob("explicit", W(cls + "::StepExplicit"), r is None, "%s, %s: %s (%s)" % (cls, tag, r or "right calls", ", ".join(x[0] for x in calls)), "explicit|%s|%s" % (cls, tag))
    c.need("step", 20)
    c.need("frame", 12)
    c.need("bounds", 6)
    c.need("conserve", 3)
    c.need("explicit", 8)
    return c.finish("other", "abstract interpretation of the explicit step of HorizontalDynamicsFEM on patches whose states, metric terms, topography, derivative tables and column operators are all symbolic; the resulting change of every entry of every instance is compared, as a function of those symbols, with the weak form spectral element discretisation of the vector invariant equations; element integrals and the call sequence of StepExplicit are decided separately", {
        "step": "the change of every prognostic entry equals the documented discretisation: vorticity and Coriolis terms, gradient of kinetic energy and geopotential, Exner pressure gradient, weak form flux divergence over the Jacobian, no-flux lower boundary, interpolation of W",
        "frame": "no entry outside of the elements, of another component, or of the initial instance changes",
        "bounds": "every array access lies within the sizes the arrays were given",
        "conserve": "with the real derivative tables the Jacobian weighted integrals of mass, rho theta and tracers over every element do not change",
        "explicit": "StepExplicit runs the step of the equation set once, the diffusion of the deviation from the reference state if asked for, and the tracer filter last"},
        assumptions=["values of symbolic functions are compared at %d random draws with relative tolerance 1e-8" % NP, "patches of one or two elements with one to three levels (the loops are uniform in both)"])
