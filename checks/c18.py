"""C18: the vertical step is the column discretisation of the nonhydrostatic equations."""
from vert import *
import itertools

CLS = "VerticalDynamicsFEM"
RANGES = {"'op'": (-1, 1), "m_datavecStateREdge": (-0.8, 0.8), "m_dataContraMetricA": (-0.5, 0.5), "m_dataContraMetricB": (-0.5, 0.5), "m_dataContraMetricXi": (-0.8, 0.8), "1,3),(0": (0, 1), "Ztop": (1.5, 2.5), "sol": (-1, 1)}
FP, FW, FR = 0, 1, 2


class Case(object):
    def __init__(self, prog, c, pcls, metric="any", tracer=None, rest=False, **kw):
        self.D = D = Vert(prog, c, pcls, **kw)
        self.P, self.nl = D.P, D.nl
        P, nl = self.P, self.nl
        if (P.loc(2), P.loc(3), P.loc(4)) != (P.NODE, P.REDGE, P.NODE):
            raise AnalysisBroken("staggering")
        D.call("Initialize")
        self.dt = atom(("dt",))
        self.metric = metric
        area = D.K.array("Grid::m_dREtaLevelsNormArea", nl)
        for x in range(P.sa):
            for y in range(P.sb):
                if metric == "uniform":      # depth of the column the same on all levels
                    J = atom(("Jcol", num(x), num(y)))
                    for k in range(nl):
                        P.set(P.arr("m_dataJacobian"), (x, y, k), J)
                        P.set(P.arr("m_dataElementAreaNode"), (x, y, k), scale(J, area[k]))
                    for k in range(nl + 1):
                        P.set(P.arr("m_dataJacobianREdge"), (x, y, k), J)
                if metric == "flat":         # symmetric metric, interfaces level
                    for k in range(nl):
                        P.set(P.arr("m_dataContraMetricXi"), (x, y, k, 0), P.get(P.arr("m_dataContraMetricA"), x, y, k, 2))
                        P.set(P.arr("m_dataContraMetricXi"), (x, y, k, 1), P.get(P.arr("m_dataContraMetricB"), x, y, k, 2))
                    for k in range(nl + 1):
                        for nm in ("m_dataContraMetricAREdge", "m_dataContraMetricBREdge"):
                            P.set(P.arr(nm), (x, y, k, 2), ZERO)
                if tracer is not None:       # constant mixing ratio
                    for k in range(nl):
                        P.set(D.state("tracer", 1), (0, x, y, k), scale(P.get(D.state("node", 1), 4, x, y, k), tracer))
        self.before = {}
        for inst in range(P.ninst):
            for w in ("node", "redge", "tracer"):
                for ix, v in D.snap(w, inst).items():
                    self.before[w, inst, ix] = v

    def step(self, name, src=1, dst=0):
        f = self.D.prog.fn(CLS + "::" + name)
        p = [x[1] for x in f.params]
        self.D.call(f, {p[0]: num(src), p[1]: num(dst), p[2]: ("PLACE", ("G", "time")), p[3]: self.dt})
        self.after = {}
        for (w, inst, ix) in self.before:
            self.after[w, inst, ix] = self.P.get(self.D.state(w, inst), *ix)

    def live(self, w, cc):
        return w == "tracer" or (self.P.loc(cc) == self.P.REDGE) == (w == "redge")

    def columns(self):
        for x in range(1, self.P.sa - 1):
            for y in range(1, self.P.sb - 1):
                yield x, y


class Oracle(object):
    """one column at one draw."""

    def __init__(self, C, seed):
        self.C, self.D, self.P, self.nl = C, C.D, C.P, C.nl
        self.e = e = Env(C.D, seed, RANGES)
        self.dt, self.g = e(C.dt), e(atom(("grav",)))
        self.cp, self.R, self.p0 = 3.1, 0.9, 1.15
        self.v = lambda w, inst, *ix: e(C.before[w, inst, ix])
        self.A = lambda nm, *ix: e(self.P.get(self.P.arr(nm), *ix))
        self.udiff = self.P.given["m_fHasUniformDiffusion"] == ("T",)
        Z = e(atom(("Ztop",)))
        self.nuS, self.nuV = e(atom(("nuS",))), e(atom(("nuV",)))
        self.cS, self.cV = self.nuS / Z ** 2, self.nuV / Z ** 2

    def op(self, nm, col):
        return [sum(c * col[l] for l, c in self.D.row(nm, k)) for k in range(len(self.D.op(nm)))]

    def setup(self, x, y):
        nl, A, v = self.nl, self.A, self.v
        self.x, self.y = x, y
        lev = lambda nm, *r: [A(nm, x, y, k, *r) for k in range(nl)]
        itf = lambda nm, *r: [A(nm, x, y, k, *r) for k in range(nl + 1)]
        self.U, self.V = [[v("node", 1, cc, x, y, k) for k in range(nl)] for cc in (0, 1)]
        self.Ue, self.Ve = self.op("m_opInterpNodeToREdge", self.U), self.op("m_opInterpNodeToREdge", self.V)
        self.dU, self.dV = self.op("m_opDiffNodeToREdge", self.U), self.op("m_opDiffNodeToREdge", self.V)
        self.J, self.Je = lev("m_dataJacobian"), itf("m_dataJacobianREdge")
        for nm in "A", "B", "Xi":
            setattr(self, "g" + nm, [lev("m_dataContraMetric" + nm, r) for r in range(3)])
            setattr(self, "e" + nm, [itf("m_dataContraMetric%sREdge" % nm, r) for r in range(3)])
        self.dR = itf("m_dataDerivRREdge", 2)
        self.P0, self.R0 = [[v("node", 1, cc, x, y, k) for k in range(nl)] for cc in (2, 4)]
        self.W0 = [v("redge", 1, 3, x, y, k) for k in range(nl + 1)]
        ref = lambda nm, cc, n: [A(nm, cc, x, y, k) if self.D.ref else 0.0 for k in range(n)]
        self.Pr, self.Rr, self.Wr = ref("m_dataRefStateNode", 2, nl), ref("m_dataRefStateNode", 4, nl), ref("m_dataRefStateREdge", 3, nl + 1)

    def xidot(self, W):
        X = self.eXi
        return [X[0][k] * self.Ue[k] + X[1][k] * self.Ve[k] + X[2][k] * W[k] if 0 < k < self.nl else 0.0 for k in range(self.nl + 1)]

    def penalty(self, xi, q, w=None):
        """upwind penalty on jumps between elements, a level at a time."""
        D = self.D
        n = 1 if D.disc == "FiniteVolume" else D.vorder
        w = [abs(x) for x in xi] if w is None else w
        if "pen" not in D.__dict__:
            o = D.K.F("GridGLL::m_opPenaltyNodeToNode")
            D.pen = []
            for side in ("m_opLeft", "m_opRight"):
                s = D.K.F("LinearColumnDiscPenaltyFEM::" + side, o)
                C = D.K.F("LinearColumnOperator::m_dCoeff", s)
                r, k = D.K.sizes.get(C, (0, 0))
                rows = []
                for i in range(r):
                    b, e = [int(number(D.K.I.load_elem(D.K.st, ("E", D.K.F("LinearColumnOperator::" + x, s), (num(i),)), "i"))) for x in ("m_iBegin", "m_iEnd")]
                    rows.append([(l, float(number(D.K.I.load_elem(D.K.st, ("E", C, (num(i), num(l))), "f")))) for l in range(b, e)])
                D.pen.append(rows)
        out = [0.0] * self.nl
        for k in range(self.nl):
            top, bot = (k // n + 1) * n, (k // n) * n
            if top < self.nl:
                out[k] += w[top] * sum(c * q[l] for l, c in D.pen[0][k])
            if bot > 0:
                out[k] += w[bot] * sum(c * q[l] for l, c in D.pen[1][k])
        return out

    def flux(self, xi, q, qn, Wn):
        """divergence of the flux of q (on levels) over the Jacobian."""
        nl = self.nl
        if self.D.levels:
            xn = [self.gXi[0][k] * self.U[k] + self.gXi[1][k] * self.V[k] + self.gXi[2][k] * Wn[k] for k in range(nl)]
            d = self.op("m_opDiffNodeToNodeZeroBoundaries", [self.J[k] * q[k] * xn[k] for k in range(nl)])
        else:
            d = self.op("m_opDiffREdgeToNode", [self.Je[k] * qn[k] * xi[k] if 0 < k < nl else 0.0 for k in range(nl + 1)])
        return [d[k] / self.J[k] for k in range(nl)]

    def F(self, P, W, R):
        """time tendency, with sign reversed, of rho theta, W and rho."""
        nl, cp, Rd = self.nl, self.cp, self.R
        N2E = lambda q: self.op("m_opInterpNodeToREdge", q)
        Wn = self.op("m_opInterpREdgeToNode", W)
        xi = self.xidot(W)
        Pe, Re = N2E(P), N2E(R)
        fP, fR = self.flux(xi, P, Pe, Wn), self.flux(xi, R, Re, Wn)
        ex = [cp * (Rd * p / self.p0) ** (Rd / (cp - Rd)) for p in P]
        dex = self.op("m_opDiffNodeToREdge", ex)
        con = lambda G, k, U, V, w: G[0][k] * U[k] + G[1][k] * V[k] + G[2][k] * w[k]
        KE = [0.5 * (con(self.gA, k, self.U, self.V, Wn) * self.U[k] + con(self.gB, k, self.U, self.V, Wn) * self.V[k] + con(self.gXi, k, self.U, self.V, Wn) * Wn[k]) for k in range(nl)]
        dKE = self.op("m_opDiffNodeToREdge", KE)
        fW = [0.0] * (nl + 1)
        for k in range(1, nl):
            ua, ub = con(self.eA, k, self.Ue, self.Ve, W), con(self.eB, k, self.Ue, self.Ve, W)
            fW[k] = dex[k] * Pe[k] / Re[k] + self.g * self.dR[k] + dKE[k] - ua * self.dU[k] - ub * self.dV[k]
        if self.udiff:
            dd = self.op("m_opDiffDiffNodeToNode", [a - b for a, b in zip(P, self.Pr)])
            fP = [a - self.cS * b for a, b in zip(fP, dd)]
            dd = self.op("m_opDiffDiffREdgeToREdge", [a - b for a, b in zip(W, self.Wr)])
            for k in range(1, nl):
                fW[k] -= self.cV * dd[k]
        for q, f in ((P, fP), (R, fR)):
            for k, a in enumerate(self.penalty(xi, q)):
                f[k] -= a
        dd = self.op("m_opDiffDiffREdgeToREdge", W)
        for k in range(1, nl):
            fW[k] -= 0.5 / nl * abs(xi[k]) * dd[k]
        return fP, fW, fR

    def tracer(self, q, qr, xi, w=None):
        """the same for a tracer density (flux on interfaces)."""
        nl = self.nl
        qe = self.op("m_opInterpNodeToREdge", q)
        fl = [self.Je[k] * qe[k] * xi[k] for k in range(nl + 1)]
        if self.udiff:
            Re = self.op("m_opInterpNodeToREdge", self.R0)
            d = self.op("m_opDiffNodeToREdge", [q[k] / self.R0[k] - (qr[k] / self.Rr[k] if self.D.ref else 0.0) for k in range(nl)])
            fl = [fl[k] - self.nuS * self.Je[k] * self.eXi[2][k] * Re[k] * d[k] for k in range(nl + 1)]
        fl[0] = fl[nl] = 0.0
        f = [a / b for a, b in zip(self.op("m_opDiffREdgeToNode", fl), self.J)]
        return [a - b for a, b in zip(f, self.penalty(xi, q, w))]

    def column(self, x, y, ntr):
        """expected change of a column by an explicit evaluation: {(array, index): change}."""
        self.setup(x, y)
        nl, out = self.nl, {}
        P, W, R = self.F(self.P0, self.W0, self.R0)
        for k in range(nl):
            out["node", (2, x, y, k)], out["node", (4, x, y, k)] = -self.dt * P[k], -self.dt * R[k]
        for k in range(nl + 1):
            out["redge", (3, x, y, k)] = -self.dt * W[k]
        xi = self.xidot(self.W0)
        for cc in range(ntr):
            qr = [self.A("m_dataRefTracers", cc, x, y, k) for k in range(nl)] if self.udiff and self.D.ref else None
            for k, f in enumerate(self.tracer([self.v("tracer", 1, cc, x, y, k) for k in range(nl)], qr, xi)):
                out["tracer", (cc, x, y, k)] = -self.dt * f
        return out

    def momenta(self, x, y, full):
        """upwinding and diffusion of the horizontal velocities."""
        nl, out = self.nl, {}
        xi = self.xidot(self.W0)
        if not full:
            con = lambda k: sum(self.eXi[r][k] * self.v("redge", 1, cc, x, y, k) for r, cc in ((0, 0), (1, 1), (2, 3)))
            xi = [con(k) if 0 < k < nl else 0.0 for k in range(nl + 1)]
        for cc, q in ((0, self.U), (1, self.V)):
            d = [self.dt * a for a in self.penalty(xi, q)]
            if self.udiff:
                ref = [self.A("m_dataRefStateNode", cc, x, y, k) for k in range(nl)]
                d = [a + self.dt * self.cV * b for a, b in zip(d, self.op("m_opDiffDiffNodeToNode", [s - t for s, t in zip(q, ref)]))]
            for k in range(nl):
                out["node", (cc, x, y, k)] = d[k]
        return out


def solvef(A, n, b):
    M = [[A.get((i, j), 0.0) for j in range(n)] + [b[i]] for i in range(n)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(M[r][i]))
        if M[k][i] == 0:
            raise Undefined("singular system")
        M[i], M[k] = M[k], M[i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            if f:
                M[r] = [a - f * q for a, q in zip(M[r], M[i])]
    x = [0.0] * n
    for i in reversed(range(n)):
        x[i] = (M[i][n] - sum(M[i][j] * x[j] for j in range(i + 1, n))) / M[i][i]
    return x



class Run(object):
    """one case of one step: interpreted once, compared at several draws."""

    def __init__(self, c, prog, pcls, step, NP, kw):
        self.c, self.step, self.kw = c, step, kw
        self.tag = "%s on %s, %s" % (step, pcls, ", ".join("%s %s" % x for x in sorted(kw.items())))
        self.W = (prog.fn(CLS + "::" + step).file, prog.fn(CLS + "::" + step).line, CLS + "::" + step)
        self.fails, self.cnt = {}, {}
        try:
            self.C = C = Case(prog, c, pcls, **kw)
            C.step(step)
        except Undefined as e:
            c.ob("step", self.W, None if "refuses" not in str(e) and "_ in" not in str(e) else False, "%s: %s" % (self.tag, e), "step|" + self.tag)
            return
        c.ob("bounds", self.W, C.P.bad is None, "%s: %s" % (self.tag, C.P.bad or "all elements inside of the arrays"), "bounds|" + self.tag)
        full = C.D.full
        for s in range(NP):
            MEMO.clear()
            self.o = o = Oracle(C, s)
            try:
                for w, (m, n, A, b) in enumerate(C.D.solves):
                    for k, x in enumerate(solvef(dict((ij, o.e(v)) for ij, v in A.items()), n, [o.e(v) for v in b])):
                        o.e.env["sol", w, k] = x
                if step == "StepImplicit" and not full:
                    self.implicit(o)
                else:
                    self.explicit(o, full)
                if kw.get("metric") == "uniform":
                    self.conserve(o)
                if kw.get("tracer") is not None and (full or step != "StepExplicit"):
                    self.mixing(o, float(kw["tracer"]))
            except Undefined as e:
                self.fails["values"], self.cnt["values"] = str(e), 1
        for k in sorted(self.cnt):
            rule, what = KINDS[k]
            f = self.fails.get(k)
            c.ob(rule, self.W, f is None, "%s: %s (%d values)%s" % (self.tag, what, self.cnt[k], "" if f is None else ": " + f), "%s|%s" % (k, self.tag))

    def cmp(self, kind, where, got, want, scale=0.3, rel=1e-8):
        self.cnt[kind] = self.cnt.get(kind, 0) + 1
        if not close(got, want, scale, rel) and kind not in self.fails:
            self.fails[kind] = "%s is %.12g, expected %.12g" % (where, got, want)

    def delta(self, o, w, ix):
        return o.e(self.C.after[w, 0, ix]) - o.e(self.C.before[w, 0, ix])

    def explicit(self, o, full):
        C, exp = self.C, {}
        for x, y in C.columns():
            if (full and self.step == "StepExplicit") or self.step == "StepImplicitTermsExplicitly":
                exp.update(o.column(x, y, C.P.ntr))
            else:
                o.setup(x, y)
            if self.step == "StepExplicit":
                exp.update(o.momenta(x, y, full))
        for (w, inst, ix), b in C.before.items():
            live = C.live(w, ix[0])
            if inst == 1:
                if live:
                    self.cmp("initial", "%s%s of the initial instance" % (w, ix), o.e(C.after[w, 1, ix]), o.e(b))
                continue
            want = exp.get((w, ix)) if live else None
            if want is None:
                if live:
                    self.cmp("others", "change of %s%s" % (w, ix), self.delta(o, w, ix), 0.0)
            else:
                self.cmp("tracer" if w == "tracer" else "UVTWR"[ix[0]], "change of %s%s" % (w, ix), self.delta(o, w, ix), want)

    def implicit(self, o):
        C, nl, n = self.C, self.C.nl, self.C.P.order
        end = C.D.ends
        self.cnt["filter"] = 1
        if len(end) != 1 or end[0] != (ZERO, len(C.D.solves)):
            self.fails["filter"] = "calls %s" % (end,)
        top = lambda x, m: x == n * m
        src = lambda x, m: x + 1 if x % n == 0 and x < n * m else x
        keep = {}
        for x, y in C.columns():
            sx, sy = src(x, C.P.na), src(y, C.P.nb)
            if (sx, sy) != (x, y):
                for (w, inst, ix), b in C.before.items():
                    if inst == 0 and C.live(w, ix[0]) and ix[1:3] == (x, y) and (w == "tracer" or ix[0] in (2, 3, 4)):
                        other = (ix[0], sx, sy, ix[3])
                        self.cmp("shared", "%s%s" % (w, ix), o.e(C.after[w, 0, ix]), o.e(C.after[w, 0, other]))
                        keep[w, ix] = 1
                continue
            o.setup(x, y)
            d = [[], [], []]
            for q, w, cc, x0 in ((0, "node", 2, o.P0), (1, "redge", 3, o.W0), (2, "node", 4, o.R0)):
                for k in range(len(x0)):
                    d[q].append(x0[k] - o.e(C.after[w, 0, (cc, x, y, k)]))
                    keep[w, (cc, x, y, k)] = 1
            F0 = o.F(o.P0, o.W0, o.R0)
            H = 1e-5 / max([1.0] + [abs(v) for dd in d for v in dd])
            st = lambda h: [[a + h * b for a, b in zip(x0, dd)] for x0, dd in zip((o.P0, o.W0, o.R0), d)]
            ud, o.udiff = o.udiff, False         # diffusion only enters the right hand side
            Fp, Fm = o.F(*st(H)), o.F(*st(-H))
            o.udiff = ud
            for q, nm in ((0, "T"), (1, "W"), (2, "R")):
                for k in range(len(d[q])):
                    if q == 1 and not 0 < k < nl:
                        self.cmp("W0", "change of W at interface %d of column %d, %d" % (k, x, y), d[q][k], 0.0)
                        continue
                    if q == 1 and self.C.metric != "flat":
                        continue
                    terms = [d[q][k] / o.dt, (Fp[q][k] - Fm[q][k]) / (2 * H)]
                    self.cmp(nm + "i", "linearised equation for %s at %d of column %d, %d" % (nm, k, x, y), sum(terms), F0[q][k], max(1.0, max(map(abs, terms))), 1e-6)
            xi0 = o.xidot(o.W0)
            for cc in range(C.P.ntr):
                q0 = [o.v("tracer", 1, cc, x, y, k) for k in range(nl)]
                dq = []
                for k in range(nl):
                    dq.append(-self.delta(o, "tracer", (cc, x, y, k)))
                    keep["tracer", (cc, x, y, k)] = 1
                H = 1e-5 / max([1.0] + [abs(v) for dd in d + [dq] for v in dd])
                at = lambda h: o.tracer([a + h * b for a, b in zip(q0, dq)], None, o.xidot([a + h * b for a, b in zip(o.W0, d[1])]))
                f0, fp, fm = o.tracer(q0, None, xi0), at(H), at(-H)
                for k in range(nl):
                    terms = [dq[k] / o.dt, (fp[k] - fm[k]) / (2 * H)]
                    self.cmp("traceri", "linearised equation for tracer %d at %d of column %d, %d" % (cc, k, x, y), sum(terms), f0[k], max(1.0, max(map(abs, terms))), 1e-6)
        for (w, inst, ix), b in C.before.items():
            if C.live(w, ix[0]) and (inst == 1 or (w, ix) not in keep):
                self.cmp("initial" if inst else "others", "%s%s of instance %d" % (w, ix, inst), o.e(C.after[w, inst, ix]), o.e(b))

    def conserve(self, o):
        C = self.C
        for x, y in C.columns():
            for w, cc, nm in [("node", 2, "rho theta"), ("node", 4, "rho")] + [("tracer", k, "tracer %d" % k) for k in range(C.P.ntr)]:
                t = [o.A("m_dataElementAreaNode", x, y, k) * (self.after_(o, w, (cc, x, y, k))) for k in range(C.nl)]
                self.cmp("column", "%s of column %d, %d changes by" % (nm, x, y), sum(t), 0.0, max(map(abs, t)))
                self.cnt["moves"] = self.cnt.get("moves", 0) + 1
                if max(map(abs, t)) < 1e-6:
                    self.fails["moves"] = "%s of column %d, %d does not change at all" % (nm, x, y)

    def after_(self, o, w, ix):
        """change from the initial instance (implicit step of the state) or of the instance itself."""
        if self.step == "StepImplicit" and w != "tracer":
            return o.e(self.C.after[w, 0, ix]) - o.e(self.C.before[w, 1, ix])
        return self.delta(o, w, ix)

    def mixing(self, o, q):
        C = self.C
        for x, y in C.columns():
            if self.step == "StepImplicit" and (x % C.P.order == 0 and x < C.P.na * C.P.order or y % C.P.order == 0 and y < C.P.nb * C.P.order):
                continue
            for k in range(C.nl):
                self.cmp("mixing", "change of tracer at %d of column %d, %d" % (k, x, y), self.delta(o, "tracer", (0, x, y, k)), q * self.after_(o, "node", (4, x, y, k)), 0.3, 1e-7)


KINDS = {"U": ("step", "upwinding and diffusion of the first horizontal velocity"), "V": ("step", "upwinding and diffusion of the second horizontal velocity"), "T": ("step", "tendency of rho theta"), "W": ("step", "tendency of the vertical velocity"),
         "R": ("step", "tendency of density"), "tracer": ("step", "tendency of tracers"), "Ti": ("implicit", "change of rho theta solves the linearised implicit equation"), "Wi": ("implicit", "change of W solves the linearised implicit equation"),
         "Ri": ("implicit", "change of density solves the linearised implicit equation"), "traceri": ("implicit", "change of tracers solves the linearised implicit equation"), "W0": ("implicit", "no change of W at the boundaries"),
         "shared": ("implicit", "nodes shared by two elements get the values of one of them"), "filter": ("implicit", "the tracer limiter runs once, at the end, on the updated instance"), "initial": ("frame", "initial instance unchanged"),
         "others": ("frame", "entries that are not stepped unchanged"), "column": ("conserve", "column integrals of mass, rho theta and tracers do not change"), "moves": ("conserve", "the integrated quantities do change level by level"),
         "mixing": ("tracer", "a constant mixing ratio stays constant"), "values": ("step", "all results are defined")}


def run(c):
    import time
    prog = Program(sources())
    NP = 2 if c.tier == "quick" else 4
    IE, SE, SI = "StepImplicitTermsExplicitly", "StepExplicit", "StepImplicit"
    CS, CA = "GridPatchCSGLL", "GridPatchCartesianGLL"
    q = Fraction(7, 10)
    cases = [(CS, SE, dict(vorder=1, nlev=3, ntr=2)), (CA, SE, dict(vorder=2, nlev=4, ntr=1, udiff=True, ref=True, panel=0)), (CS, SE, dict(vorder=1, nlev=3, ntr=1, udiff=True, metric="uniform")),
             (CS, SE, dict(vorder=2, nlev=4, ntr=0, levels=True)), (CA, SE, dict(vorder=2, nlev=5, ntr=1, disc="FiniteVolume", panel=0)), (CS, SE, dict(vorder=1, nlev=3, ntr=1, full=False)),
             (CA, SE, dict(vorder=2, nlev=4, ntr=0, full=False, udiff=True, panel=0)), (CS, IE, dict(vorder=1, nlev=4, ntr=1, full=False, metric="uniform")), (CA, IE, dict(vorder=3, nlev=3, ntr=1, tracer=q, panel=0)),
             (CS, IE, dict(vorder=1, nlev=3, ntr=1, tracer=q, full=False)),
             (CS, SI, dict(vorder=1, nlev=3, ntr=2, full=False, na=2, nb=2)), (CS, SI, dict(vorder=2, nlev=4, ntr=1, full=False, metric="flat")), (CA, SI, dict(vorder=1, nlev=4, ntr=1, full=False, metric="uniform", panel=0)),
             (CS, SI, dict(vorder=2, nlev=4, ntr=1, full=False, tracer=q)), (CS, SI, dict(vorder=1, nlev=3, ntr=1, full=True)), (CA, SI, dict(vorder=4, nlev=4, ntr=0, full=False, metric="flat", panel=0)),
             (CA, SI, dict(vorder=2, nlev=4, ntr=0, full=False, disc="FiniteVolume", metric="flat", panel=0)), (CA, SI, dict(vorder=1, nlev=3, ntr=0, full=False, udiff=True, metric="flat", panel=0))]
    if c.tier == "thorough":
        cases += [(CS, SE, dict(vorder=3, nlev=6, ntr=1, udiff=True, ref=True)), (CA, SE, dict(vorder=4, nlev=8, ntr=1, panel=0)), (CA, SE, dict(vorder=5, nlev=5, ntr=0, panel=0)), (CS, SE, dict(vorder=1, nlev=2, ntr=1, na=2)),
                  (CS, SE, dict(vorder=1, nlev=4, ntr=0, levels=True)), (CA, SE, dict(vorder=4, nlev=6, ntr=1, disc="FiniteVolume", panel=0)), (CS, SE, dict(vorder=3, nlev=6, ntr=0, full=False, udiff=True, nb=2)),
                  (CS, IE, dict(vorder=2, nlev=6, ntr=1, udiff=True, full=False)), (CA, IE, dict(vorder=2, nlev=6, ntr=2, metric="uniform", panel=0)), (CA, IE, dict(vorder=2, nlev=4, ntr=1, disc="FiniteVolume", tracer=q, panel=0)),
                  (CA, SI, dict(vorder=3, nlev=6, ntr=1, full=False, metric="flat", panel=0)), (CS, SI, dict(vorder=2, nlev=6, ntr=1, full=False, metric="uniform")), (CS, SI, dict(vorder=3, nlev=6, ntr=1, full=False, tracer=q)),
                  (CA, SI, dict(vorder=5, nlev=5, ntr=0, full=False, metric="flat", panel=0)), (CS, SI, dict(vorder=1, nlev=6, ntr=1, full=False, metric="flat")), (CS, SI, dict(vorder=1, nlev=2, ntr=1, full=False, na=3, nb=1)),
                  (CA, SI, dict(vorder=4, nlev=5, ntr=1, full=False, disc="FiniteVolume", panel=0)), (CS, SI, dict(vorder=2, nlev=4, ntr=1, full=False, na=1, nb=3))]
    t = time.time()
    for pcls, step, kw in cases:
        kw.setdefault("na", 1)
        kw.setdefault("nb", 1)
        r = Run(c, prog, pcls, step, NP, dict(kw, order=2))
        if os.environ.get("VERBOSE"):
            print("%.1f s %s" % (time.time() - t, r.tag))
    c.need("step", 35)
    c.need("implicit", 25)
    c.need("frame", 30)
    c.need("bounds", 15)
    c.need("conserve", 6)
    c.need("tracer", 3)
    return c.finish("other", "abstract interpretation of the explicit, explicitly evaluated and implicit vertical steps of VerticalDynamicsFEM on patches whose states, reference states, metric terms and coefficients are symbolic, with the column operators the grid's set-up folds to; the banded systems handed to LAPACK are recorded as functions of those symbols; the changes of all entries are compared with the column discretisation of the equations", {
        "step": "the change of every entry equals -dt times the discrete tendency: flux divergences of mass, rho theta and tracers over the Jacobian, Exner pressure gradient, gravity, kinetic energy gradient and Clark terms for W, uniform diffusion, upwind penalty at element interfaces, none at the boundaries",
        "implicit": "the changes an implicit step makes satisfy the linearised implicit equations of the same tendency (the equation for W where interfaces are level); W does not change at the boundaries; shared nodes agree; the limiter runs last",
        "frame": "no entry outside of the patch interior, of another component, or of the initial instance changes",
        "bounds": "every array access lies within the sizes the arrays were given; the band matrices have room for their bands and nothing is stored outside of them",
        "conserve": "column integrals of mass, rho theta and tracers do not change (column depth the same on all levels)",
        "tracer": "a tracer with constant mixing ratio keeps it"},
        assumptions=["LAPACK's dgbsv, dgbtrf and dgbtrs solve the banded systems they are given", "values of symbolic functions are compared at %d random draws with relative tolerance 1e-8 (1e-6 for directional derivatives)" % NP,
                     "columns of two to eight levels, the operators of each being the folded constants of the grid's own set-up", "Lorenz staggering (W on interfaces), the rho theta formulation compiled by default"])
