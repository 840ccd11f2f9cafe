"""C17: viscosity, hyperviscosity, Rayleigh friction and the tracer limiter do what they are documented to do."""
from dyn import *
import itertools
from c16 import Outside, Values


CLS = "HorizontalDynamicsFEM"
RANGES = {"m_dataTopography": (0.02, 0.3), "m_datavecTracers": (-0.25, 0.9), "m_dDxBasis1D": (-1, 1), "m_dStiffness1D": (-1, 1), "m_datavecState": (-1, 1)}
TRACERS = {"m_datavecTracers": (-0.1, 0.9), "m_dataElementArea": (0.8, 1.2)}
VOID = ("opq", ("void",))


class Case(object):
    """dynamics and patch, with the grid wide operations as maps of the stored arrays: the direct stiffness summation is
    represented by a multiplication with one unknown."""

    def __init__(self, prog, c, pcls, nu=None, visc=4, friction=False, lref=True, signs=None, opaque=False, **kw):
        g = {"m_fHasRayleighFriction": ("T",) if friction else ("F",), "m_dReferenceLength": atom(("lref",)) if lref else ZERO}
        self.D = D = Dyn(prog, c, CLS, pcls, given=g, **kw)
        self.P, self.n, self.nl, self.sw = D.P, D.n, D.nl, D.sw
        D.member("m_nHorizontalOrder", num(D.n))
        D.member("m_nHyperviscosityOrder", num(visc))
        self.nu = nu or (Fraction(3, 10), Fraction(1, 2), Fraction(7, 10))
        for m, v in zip(("m_dNuScalar", "m_dNuDiv", "m_dNuVort"), self.nu):
            D.member(m, num(v))
        D.call("Initialize")
        for f in ("InitializeDataLocal",):
            q = pcls + "::" + f
            fn = prog.byqual(q) if callable(getattr(prog, "byqual", None)) else None
        self.dt = atom(("dt",))
        self.dss = atom(("dss",))
        self.flt = atom(("limited",)) if opaque else None
        self.S, self.T = num(enum_value(prog, "DataType_State")), num(enum_value(prog, "DataType_Tracers"))
        self.P.extra.append(self.hook)
        self.P.extra.insert(0, self.hook)
        if friction:
            rng = random.Random(5)
            for nm in ("m_dataRayleighStrengthNode", "m_dataRayleighStrengthREdge"):
                a = self.P.arr(nm)
                for ix in itertools.product(*[range(k) for k in self.P.sizes[a]]):
                    self.P.set(a, ix, Fraction(rng.choice((0, 1, 1)) * rng.randint(1, 40), 40))
        if signs is not None:
            # tracer values of both signs, zeros and tiny ones
            rng = random.Random(signs)
            for ix in itertools.product(*[range(k) for k in self.P.sizes[D.state("tracer", 0)]]):
                v = self.P.get(D.state("tracer", 0), *ix)
                k = rng.randint(0, 9)
                x = -rng.randint(1, 200000) if k > 0 else 0
                if signs == 0 or k > 4:
                    x = rng.choice((rng.randint(100000, 1000000), rng.randint(100000, 1000000), 1))
                self.P.set(D.state("tracer", 0), ix, Fraction(x, 1000000 if signs % 4 < 3 else 10 ** 11))
            if len(list(self.elements())) > 1 or self.nl > 1:
                a = self.P.arr("m_dataElementAreaNode")
                for ix in itertools.product(*[range(k) for k in self.P.sizes[a]]):
                    self.P.set(a, ix, Fraction(rng.randint(80, 120), 100))
        self.before = Values()
        for inst in range(self.P.ninst):
            for w in ("node", "redge", "tracer"):
                for ix, v in D.snap(w, inst).items():
                    self.before[w, inst, ix] = v

    def elements(self):
        return itertools.product(range(self.P.na), range(self.P.nb))

    def live(self, w, cc):
        """is this array entry a prognostic value of its component."""
        if w == "tracer":
            return True
        return (not self.sw and self.P.loc(cc) == self.P.REDGE) == (w == "redge")

    def keys(self, inst, ty):
        for (w, i, ix) in self.before:
            if i == inst and (w == "tracer") == (ty == self.T):
                yield w, ix

    def hook(self, I, st, fr, n, key, q, place, args):
        m = q.split("::")[-1]
        if q == CLS + "::FilterNegativeTracers" and self.flt is not None:
            dst = int(I.as_num(I.ev(args[0], st, fr)).const())
            for w, ix in list(self.keys(dst, self.T)):
                a = ("E", self.D.state(w, dst), tuple(num(x) for x in ix))
                I.store_to(st, a, mul(self.flt, I.as_num(I.load_elem(st, a, "f"))), None)
            return VOID
        if not q.startswith("Grid") or m not in ("ZeroData", "CopyData", "ApplyDSS", "PostProcessSubstage"):
            return NotImplemented
        if q.startswith("GridPatch"):
            return NotImplemented
        a = [I.ev(x, st, fr) for x in args]
        ty = a[-1]
        if m == "CopyData" and len(a) == 3:
            f = lambda w, ix, i: I.load_elem(st, ("E", self.D.state(w, int(a[0].const())), tuple(num(x) for x in ix)), "f")
            dst = int(a[1].const())
        elif m == "ZeroData" and len(a) == 2:
            f, dst = lambda w, ix, i: ZERO, int(a[0].const())
        elif m in ("ApplyDSS", "PostProcessSubstage") and len(a) == 2:
            dst = int(a[0].const())
            f = lambda w, ix, i: mul(self.dss, I.as_num(I.load_elem(st, ("E", self.D.state(w, dst), tuple(num(x) for x in ix)), "f")))
        else:
            raise AnalysisBroken("%s with %d arguments" % (q, len(a)))
        if ty not in (self.S, self.T):
            raise AnalysisBroken("%s of data type %s" % (q, ty))
        new = [(w, ix, f(w, ix, dst)) for w, ix in self.keys(dst, ty)]
        for w, ix, v in new:
            I.store_to(st, ("E", self.D.state(w, dst), tuple(num(x) for x in ix)), v, None)
        return VOID

    def run(self, name, *vals):
        f = self.D.prog.fn(CLS + "::" + name)
        a = {}
        if len(vals) != len(f.params):
            raise AnalysisBroken("%s takes %d arguments" % (f.qual, len(f.params)))
        for p, v in zip(f.params, vals):
            a[p[1]] = v
        self.D.call(f, a)
        self.after = {}
        for (w, inst, ix) in self.before:
            self.after[w, inst, ix] = self.P.get(self.D.state(w, inst), *ix)


class Num(object):
    """the operators at one draw, on plain numbers."""

    def __init__(self, C, seed, ranges=None):
        self.C, self.P, self.D = C, C.P, C.D
        self.e = e = Env(C.D, seed, dict(RANGES, **(ranges or {})))
        self.x = Values((k, e(v)) for k, v in C.before.items())
        self.dt, self.dss = e(C.dt), e(C.dss)
        self.A = lambda nm, *ix: e(self.P.get(self.P.arr(nm), *ix))
        self.dA = e(self.P.I.load(self.P.st, self.P.F("GridPatchGLL::m_dElementDeltaA"), "d"))
        self.dB = e(self.P.I.load(self.P.st, self.P.F("GridPatchGLL::m_dElementDeltaB"), "d"))
        self.vague = set()

    def els(self):
        n = self.C.n
        for a in range(self.P.na):
            for b in range(self.P.nb):
                yield [[(1 + a * n + i, 1 + b * n + j) for j in range(n)] for i in range(n)]

    def ref(self, w, *ix):
        return self.A({"node": "m_dataRefStateNode", "redge": "m_dataRefStateREdge"}[w], *ix)

    def d(self, F, i, j, m, axis):
        n = self.C.n
        if axis == 0:
            return sum(F[s][j] * (self.e.tab("D", s, i) if m == "D" else self.e.tab("S", i, s)) for s in range(n)) / self.dA
        return sum(F[i][s] * (self.e.tab("D", s, j) if m == "D" else self.e.tab("S", j, s)) for s in range(n)) / self.dB

    def G(self, f):
        n = self.C.n
        return [[f(i, j) for j in range(n)] for i in range(n)]

    def scale(self, on):
        if not on:
            return 1.0
        l = self.P.given["m_dReferenceLength"]
        return 1.0 if l == ZERO else (self.dA / self.e(l)) ** 3.2

    def scalar(self, src, dst, coef, comp=-1, deviation=False):
        """dst += coef * Laplacian(src) for the given component, or for all but the velocities."""
        C, P = self.C, self.P
        todo = [comp] if comp >= 0 else list(range(2, P.comps))
        todo = [("redge" if C.live("redge", k) else "node", k) for k in todo]
        if comp < 0:
            todo += [("tracer", k) for k in range(P.ntr)]
        new = {}
        for w, cc in todo:
            for el in self.els():
                for k in range(C.nl + (w == "redge")):
                    J = self.G(lambda i, j: self.A("m_dataJacobianREdge" if w == "redge" else "m_dataJacobian", el[i][j][0], el[i][j][1], k))
                    q = self.G(lambda i, j: self.x[w, src, (cc, el[i][j][0], el[i][j][1], k)] - (self.ref(w, cc, el[i][j][0], el[i][j][1], k) if deviation else 0.0))
                    da, db = self.G(lambda i, j: self.d(q, i, j, "D", 0)), self.G(lambda i, j: self.d(q, i, j, "D", 1))
                    fl = [self.G(lambda i, j: J[i][j] * (self.A(nm, el[i][j][0], el[i][j][1], 0) * da[i][j] + self.A(nm, el[i][j][0], el[i][j][1], 1) * db[i][j])) for nm in ("m_dataContraMetric2DA", "m_dataContraMetric2DB")]
                    for i in range(C.n):
                        for j in range(C.n):
                            new[w, dst, (cc,) + el[i][j] + (k,)] = -(self.d(fl[0], i, j, "S", 0) + self.d(fl[1], i, j, "S", 1)) / J[i][j]
        for key, v in new.items():
            self.x[key] += coef * v

    def vector(self, src, dst, cdiv, cvort):
        """dst += cdiv * grad div(src) - cvort * curl curl(src) for the horizontal velocity; src -1: reference state."""
        C, new = self.C, {}
        for el in self.els():
            for k in range(C.nl):
                v = lambda cc: self.G(lambda i, j: self.ref("node", cc, el[i][j][0], el[i][j][1], k) if src < 0 else self.x["node", src, (cc,) + el[i][j] + (k,)])
                U, V = v(0), v(1)
                J = self.G(lambda i, j: self.A("m_dataJacobian2D", *el[i][j]))
                g = lambda nm, r: self.G(lambda i, j: self.A(nm, el[i][j][0], el[i][j][1], r))
                a0, a1, b0, b1 = g("m_dataContraMetric2DA", 0), g("m_dataContraMetric2DA", 1), g("m_dataContraMetric2DB", 0), g("m_dataContraMetric2DB", 1)
                ja = self.G(lambda i, j: J[i][j] * (a0[i][j] * U[i][j] + a1[i][j] * V[i][j]))
                jb = self.G(lambda i, j: J[i][j] * (b0[i][j] * U[i][j] + b1[i][j] * V[i][j]))
                div = self.G(lambda i, j: (self.d(ja, i, j, "D", 0) + self.d(jb, i, j, "D", 1)) / J[i][j])
                rot = self.G(lambda i, j: (self.d(V, i, j, "D", 0) - self.d(U, i, j, "D", 1)) / J[i][j])
                for i in range(C.n):
                    for j in range(C.n):
                        dv = [-self.d(div, i, j, "S", t) for t in (0, 1)]
                        dz = [-self.d(rot, i, j, "S", t) for t in (0, 1)]
                        new[0, el[i][j] + (k,)] = cdiv * dv[0] - cvort * J[i][j] * (b0[i][j] * dz[0] + b1[i][j] * dz[1])
                        new[1, el[i][j] + (k,)] = cdiv * dv[1] + cvort * J[i][j] * (a0[i][j] * dz[0] + a1[i][j] * dz[1])
        for (cc, ix), v in new.items():
            if cc == 0 or not self.D.xz:
                self.x["node", dst, (cc,) + ix] += v

    def rayleigh(self, inst):
        C, P = self.C, self.P
        comps = range(P.comps) if C.sw else (0, 2, 3) if self.D.xz else (0, 1, 2, 3)
        for cc in comps:
            w = "redge" if C.live("redge", cc) else "node"
            nm = {"node": "m_dataRayleighStrengthNode", "redge": "m_dataRayleighStrengthREdge"}[w]
            for el in self.els():
                for x, y in sum(el, []):
                    for k in range(C.nl + (w == "redge")):
                        f = (1.0 + self.dt * self.A(nm, x, y, k) / 10.0) ** -10
                        r = self.ref(w, cc, x, y, k)
                        key = (w, inst, (cc, x, y, k))
                        self.x[key] = r + (self.x[key] - r) * f

    def limit(self, inst):
        if self.C.flt is not None:
            for k in self.x:
                if k[0] == "tracer" and k[1] == inst:
                    self.x[k] *= self.e(self.C.flt)
            return
        for cc in range(self.P.ntr):
            for el in self.els():
                for k in range(self.C.nl):
                    ks = [("tracer", inst, (cc, x, y, k)) for x, y in sum(el, [])]
                    w = [self.A("m_dataElementAreaNode", x, y, k) for x, y in sum(el, [])]
                    tot = sum(self.x[q] * a for q, a in zip(ks, w))
                    pos = sum(max(self.x[q], 0.0) * a for q, a in zip(ks, w))
                    for q in ks:
                        if tot <= 0:
                            self.vague.add(q)
                        self.x[q] = max(self.x[q], 0.0) * (tot / pos if pos else 0.0)

    def sum_up(self, inst):
        for k in self.x:
            if k[1] == inst:
                self.x[k] *= self.dss

    def copy(self, a, b):
        for k in self.x:
            if k[1] == b:
                self.x[k] = self.x[k[0], a, k[2]]

    def zero(self, a):
        for k in self.x:
            if k[1] == a:
                self.x[k] = 0.0


def run(c):
    prog = Program(sources())
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    NP = 2 if c.tier == "quick" else 5
    CS, CA = "GridPatchCSGLL", "GridPatchCartesianGLL"
    Fl, Tr = ("F",), ("T",)
    dt, nu, nv = atom(("dt",)), atom(("nu",)), atom(("nv",))
    place = ("PLACE", ("G", "time"))

    def compare(rule, fname, tag, C, apply, args, ranges=None, stale=(), seeds=None):
        q = CLS + "::" + fname
        key = "%s|%s" % (rule, tag)
        try:
            C.run(fname, *args)
        except Undefined as e:
            c.ob(rule, W(q), False, "%s: %s" % (tag, e), key)
            return
        c.ob("bounds", W(q), C.P.bad is None, "%s: %s" % (tag, C.P.bad or "all elements inside of the arrays"), "bounds|" + key)
        bad, cnt, vague = {}, 0, 0
        for s in range(seeds or NP):
            o = Num(C, s, ranges)
            try:
                apply(o)
            except Outside as e:
                bad["extent of the state"] = str(e)
                cnt = 1
                break
            MEMO.clear()
            for key_, a in C.after.items():
                w, inst, ix = key_
                if inst in stale or not C.live(w, ix[0]) and inst not in (0,):
                    continue
                if not C.live(w, ix[0]) and C.after[key_] == C.before[key_]:
                    continue
                if key_ in o.vague:
                    vague += 1
                    continue
                try:
                    got = o.e(a)
                except Undefined as e:
                    bad.setdefault(w, "%s%s: %s" % (w, ix, e))
                    continue
                cnt += 1
                if not close(got, o.x[key_], 0.3, 1e-7):
                    bad.setdefault(w, "%s%s of instance %d becomes %.12g, expected %.12g" % (w, ix, inst, got, o.x[key_]))
        c.ob(rule, W(q), not bad and cnt > 0, "%s: %d values%s" % (tag, cnt, "" if not bad else ": " + "; ".join(bad.values())), key)
        if vague:
            c.cover = getattr(c, "cover", 0) + vague

    # the operators on their own
    scal = [(CS, dict(order=2, ntr=1), False, -1, False), (CS, dict(order=3, na=1, ntr=0), True, 2, True), (CA, dict(order=2, na=1, nb=2, ntr=2, panel=0), True, -1, False),
            (CA, dict(order=2, na=1, ntr=1, panel=0, lref=False), True, 3, True), (CS, dict(order=2, na=1, sw=True, ntr=1), True, -1, False), (CS, dict(order=2, na=1, ntr=0, stag="Levels"), False, 3, True)]
    vect = [(CS, dict(order=2), 1, False), (CA, dict(order=3, na=1, panel=0), -1, False), (CA, dict(order=2, na=1, nb=2, panel=0, xz=True), 1, True), (CS, dict(order=2, sw=True, na=1), 1, True), (CA, dict(order=2, na=1, panel=0, lref=False), -1, True)]
    if c.tier == "thorough":
        scal += [(CS, dict(order=4, na=1, ntr=1), True, -1, False), (CA, dict(order=3, na=2, nb=2, ntr=1, panel=0), False, -1, False)]
        vect += [(CS, dict(order=4, na=1), 1, True), (CA, dict(order=3, na=2, nb=2, panel=0), 1, False)]
    for pcls, kw, sc, comp, dev in scal:
        C = Case(prog, c, pcls, **dict(dict(na=2, nb=1), **kw))
        tag = "scalar viscosity, %s, %s, %sscaled, component %d, %s" % (pcls, sorted(kw.items()), "" if sc else "un", comp, "deviation" if dev else "full")
        compare("scalar", "ApplyScalarHyperdiffusion", tag, C, lambda o: o.scalar(1, 0, o.dt * o.e(nu) * o.scale(sc), comp, dev), (num(1), ZERO, dt, nu, Tr if sc else Fl, num(comp), Tr if dev else Fl))
    for pcls, kw, src, sc in vect:
        C = Case(prog, c, pcls, **dict(dict(na=2, nb=1, ntr=0), **kw))
        tag = "vector viscosity, %s, %s, %sscaled, from %s" % (pcls, sorted(kw.items()), "" if sc else "un", "reference state" if src < 0 else "state")
        compare("vector", "ApplyVectorHyperdiffusion", tag, C, lambda o: o.vector(src, 0, -o.dt * o.e(nu) * o.scale(sc), -o.dt * o.e(nv) * o.scale(sc)), (num(src), ZERO, dt, nu, nv, Tr if sc else Fl))
    for pcls, kw in [(CS, dict(order=2, na=2, ntr=1)), (CA, dict(order=2, na=1, nb=2, panel=0, xz=True)), (CS, dict(order=3, na=1, sw=True)), (CA, dict(order=2, na=1, panel=0, nlev=3, stag="Levels"))]:
        C = Case(prog, c, pcls, friction=True, **dict(dict(na=1, nb=1, ntr=0), **kw))
        compare("friction", "ApplyRayleighFriction", "Rayleigh friction, %s, %s" % (pcls, sorted(kw.items())), C, lambda o: o.rayleigh(0), (ZERO, dt))
    for pcls, kw in [(CS, dict(order=2, na=2, ntr=2)), (CA, dict(order=3, na=1, nb=2, ntr=1, panel=0)), (CA, dict(order=3, nlev=1, ntr=1, panel=0))]:
        for sg in range(4 if c.tier == "quick" else 12):
            C = Case(prog, c, pcls, signs=sg, **dict(dict(na=1, nb=1), **kw))
            compare("limiter", "FilterNegativeTracers", "tracer limiter, %s, %s, pattern of signs %d" % (pcls, sorted(kw.items()), sg), C, lambda o: o.limit(0), (ZERO,), TRACERS)

    # what happens after every step
    def after(o, visc, nus, friction):
        o.copy(1, 0)
        s, d, v = [float(x) for x in nus]
        if visc == 2 and any(nus):
            o.scalar(1, 0, o.dt * s)
            o.vector(1, 0, o.dt * d, o.dt * v)
        elif visc == 4 and any(nus):
            o.zero(2)
            o.scalar(1, 2, 1.0)
            o.vector(1, 2, 1.0, 1.0)
            o.sum_up(2)
            f = o.scale(True)
            o.scalar(2, 0, -o.dt * s * f)
            o.vector(2, 0, -o.dt * d * f, -o.dt * v * f)
        if visc and any(nus):
            o.limit(0)
            o.sum_up(0)
        if friction:
            o.rayleigh(0)

    N0 = (Fraction(0),) * 3
    N1 = (Fraction(1, 500), Fraction(1, 300), Fraction(1, 400))
    N2 = (Fraction(0), Fraction(1, 300), Fraction(0))
    cyc = [(CS, dict(ntr=1, nlev=1), 2, N1, False), (CA, dict(ntr=0, nlev=1, panel=0), 4, N1, True), (CS, dict(sw=True, ntr=1), 4, N1, False), (CS, dict(sw=True, ntr=1), 4, N0, True), (CS, dict(sw=True, ntr=0), 4, N2, False), (CS, dict(sw=True, ntr=1), 0, N1, False)]
    if c.tier == "thorough":
        cyc += [(CS, dict(ntr=1, nlev=2), 4, N1, True), (CA, dict(ntr=1, nlev=1, panel=0, na=2), 4, N1, True), (CA, dict(ntr=1, nlev=1, panel=0, xz=True), 2, N2, True)]
    for pcls, kw, visc, nus, fr in cyc:
        C = Case(prog, c, pcls, nu=nus, visc=visc, friction=fr, ninst=3, opaque=True, **dict(dict(na=1, nb=1, order=2), **kw))
        tag = "after the step, %s, %s, order %d, coefficients %s, %s friction" % (pcls, sorted(kw.items()), visc, [str(x) for x in nus], "with" if fr else "no")
        compare("cycle", "StepAfterSubCycle", tag, C, lambda o: after(o, visc, nus, fr), (num(1), ZERO, num(2), place, dt), {"m_datavecTracers": (0.3, 0.9), "m_dDxBasis1D": (-0.5, 0.5), "m_dStiffness1D": (-0.5, 0.5)}, stale=(2,))
    # integrals
    for pcls, kw in [(CS, dict(order=3, na=1, ntr=1)), (CA, dict(order=2, na=2, ntr=1, panel=0, stag="Levels"))]:
        C = Case(prog, c, pcls, symtab=False, **dict(dict(nb=1), **kw))
        C.run("ApplyScalarHyperdiffusion", num(1), ZERO, dt, nu, Fl, num(-1), Fl)
        wt = {2: (0.5, 0.5), 3: (1 / 6., 4 / 6., 1 / 6.)}[C.n]
        bad, cnt = None, 0
        for s in range(NP):
            o = Num(C, s)
            MEMO.clear()
            for el in o.els():
                for w, cc in [("redge" if C.live("redge", k) else "node", k) for k in (2, 3, 4)] + [("tracer", 0)]:
                    for k in range(C.nl + (w == "redge")):
                        t = []
                        out = [(cc, x, y, k) for r in el for x, y in r if (w, 0, (cc, x, y, k)) not in C.before]
                        if out:
                            bad = bad or "the state has no element %s of %s, which is in the interior of the patch" % (out[0], w)
                            continue
                        for i in range(C.n):
                            for j in range(C.n):
                                x, y = el[i][j]
                                J = o.A("m_dataJacobianREdge" if w == "redge" else "m_dataJacobian", x, y, k)
                                t.append(wt[i] * wt[j] * J * (o.e(C.after[w, 0, (cc, x, y, k)]) - o.e(C.before[w, 0, (cc, x, y, k)])))
                        cnt += 1
                        if abs(sum(t)) > 1e-8 * sum(abs(x) for x in t) or not any(t):
                            bad = bad or "%s component %d on level %d of the element at %s: changes sum up to %g of %g" % (w, cc, k, el[0][0], sum(t), sum(abs(x) for x in t))
        tag = "scalar viscosity, %s, %s" % (pcls, sorted(kw.items()))
        c.ob("conserve", W(CLS + "::ApplyScalarHyperdiffusion"), bad is None, "%s: %d element integrals unchanged%s" % (tag, cnt, "" if bad is None else ": " + bad), "conserve|" + tag)
    for r, k in (("scalar", 6), ("vector", 5), ("friction", 4), ("limiter", 8), ("cycle", 6), ("bounds", 20), ("conserve", 2)):
        c.need(r, k)
    return c.finish("other", "abstract interpretation of the viscosity operators, the Rayleigh friction, the tracer limiter and the sequence applied after every step, on patches whose states, reference states, metric terms and derivative tables are symbolic; the resulting value of every entry of every instance is compared, as a function of those symbols, with the Laplacian in weak form, the grad div / curl curl operator, the backward Euler relaxation and the conservative limiter written down independently", {
        "scalar": "the update instance changes by dt nu times the weak Laplacian of the (deviation of the) requested components, nothing else changes",
        "vector": "the horizontal velocity changes by minus dt times (nu_div grad div - nu_vort curl curl), from the state or the reference state",
        "friction": "all components but the density (and the velocity across an XZ slice) relax to the reference state with the strength of their own location",
        "limiter": "tracers become non-negative and keep the mass of every element and level",
        "cycle": "after the step: initial state plus viscosity or minus hyperviscosity, limiter, one stiffness summation per instance written, then friction; nothing when the coefficients vanish",
        "conserve": "with the real derivative tables the weighted integrals over each element do not change",
        "bounds": "every array access lies within the sizes the arrays were given"},
        assumptions=["values of symbolic functions are compared at %d random draws with relative tolerance 1e-7" % NP, "the direct stiffness summation is represented by a multiplication with one unknown and the limiter, inside of the sequence, by another", "elements whose tracer mass is negative are left out of the limiter's rule"])
