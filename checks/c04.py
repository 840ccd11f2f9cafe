"""C04: conversions between pressure, density-weighted potential temperature and Exner pressure are mutually consistent."""
from common import *
from absint import *
from ident import Identity
import sym

CLS = "PhysicalConstants"


def run(c):
    prog = Program(sources())
    ident = Identity(seed=4)
    this = ("G", "pc")
    fields = [q for q, t, ln, ini in prog.classes[CLS]["fields"]]

    def meth(name, must=True):
        f = prog.fn(CLS + "::" + name, must=False)
        if f is None and must:
            raise AnalysisBroken("no %s::%s" % (CLS, name))
        return f

    ctor = [f for f in prog.byqual.get(CLS + "::" + CLS, []) if not f.params]
    if len(ctor) != 1:
        raise AnalysisBroken("constructor of %s not found" % CLS)
    ctor = ctor[0]

    def construct():
        st2, _ = run_function(new_interp(prog), ctor, this, {}, State())
        return st2

    def call(name, st, *args):
        f = meth(name)
        I = new_interp(prog)
        s, r = run_function(I, f, this, {p[1]: a for p, a in zip(f.params, args)}, st.fork())
        c.functions |= set(I.fnlog)
        if s is None:
            raise AnalysisBroken("%s always throws" % name)
        return s, r

    s0 = construct()
    if s0 is None:
        raise AnalysisBroken("constructor always throws")
    getters = sorted(f.name for q, fs in prog.byqual.items() if q.startswith(CLS + "::Get") for f in fs) if hasattr(ctor, "name") else \
        sorted(q.split("::")[-1] for q in prog.byqual if q.startswith(CLS + "::Get"))
    setters = sorted(q.split("::")[-1] for q in prog.byqual if q.startswith(CLS + "::Set"))
    X = {n: atom(("new", n)) for n in setters}
    W = lambda n: (meth(n).file, meth(n).line, meth(n).qual)

    # states: after construction, after every setter, after every ordered pair of the setters
    states = [("construction", s0)]
    for a in setters:
        sa, _ = call(a, s0, X[a])
        states.append((a, sa))
        for b in setters:
            if a != b:
                sb, _ = call(b, sa, X[b])
                states.append((a + ", " + b, sb))
    for nm in ("SetR", "SetCp", "SetP0"):
        if nm not in setters:
            raise AnalysisBroken("no %s" % nm)

    rng = {"SetR": (200, 400), "SetCp": (900, 1200), "SetP0": (9e4, 1.1e5)}

    def draw(r):
        e = {("new", n): r.uniform(*rng.get(n, (0.5, 2.0))) for n in setters}
        e[("rt",)] = r.uniform(50, 400)
        e[("p",)] = r.uniform(1e3, 1e5)
        e[("pi",)] = r.uniform(300, 1000)
        return e

    def same(rule, where, a, b, st, what):
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            c.ob(rule, where, None, "%s: value not resolved" % what)
            return
        ok, how = ident(a, b, draw)
        c.ob(rule, where, ok, "%s after %s: %s" % (what, st, how), "%s|%s|%s" % (rule, what, st))

    rt, p, pi = atom(("rt",)), atom(("p",)), atom(("pi",))
    derived = {}
    for tag, st in states:
        g = {}
        for nm in getters:
            g[nm] = call(nm, st)[1]
        R, cp, p0 = g["GetR"], g["GetCp"], g["GetP0"]
        # the physical definition in terms of the current R, cp, p0
        kappa = div(R, cp)
        gamma = div(cp, sub(cp, R))
        pref = mul(p0, sym.fn("pow", div(mul(R, rt), p0), gamma))
        exner = mul(cp, sym.fn("pow", div(p, p0), kappa))
        same("definition", W("PressureFromRhoTheta"), call("PressureFromRhoTheta", st, rt)[1], pref, tag, "p(rho theta) = p0 (R rho theta / p0)^(cp/cv)")
        same("definition", W("ExnerPressureFromPressure"), call("ExnerPressureFromPressure", st, p)[1], exner, tag, "Exner(p) = cp (p/p0)^(R/cp)")
        for f, b, x in (("PressureFromRhoTheta", "RhoThetaFromPressure", rt), ("RhoThetaFromPressure", "PressureFromRhoTheta", p),
                        ("ExnerPressureFromRhoTheta", "RhoThetaFromExnerPressure", rt), ("RhoThetaFromExnerPressure", "ExnerPressureFromRhoTheta", pi),
                        ("ExnerPressureFromPressure", "PressureFromExnerPressure", p), ("PressureFromExnerPressure", "ExnerPressureFromPressure", pi)):
            y = call(f, st, x)[1]
            same("inverse", W(b), call(b, st, y)[1], x, tag, "%s(%s(x)) = x" % (b, f))
        same("triangle", W("ExnerPressureFromRhoTheta"), call("ExnerPressureFromPressure", st, call("PressureFromRhoTheta", st, rt)[1])[1],
             call("ExnerPressureFromRhoTheta", st, rt)[1], tag, "Exner(p(rho theta)) = Exner(rho theta)")
        same("derived", W("GetKappa"), g["GetKappa"], kappa, tag, "kappa = R/cp")
        same("derived", W("GetGamma"), g["GetGamma"], gamma, tag, "gamma = cp/cv")
        same("derived", W("GetCv"), g["GetCv"], sub(cp, R), tag, "cv = cp - R")
        same("derived", W("GetPressureScaling"), g["GetPressureScaling"], mul(p0, sym.fn("pow", div(R, p0), gamma)), tag, "pressure scaling = p0 (R/p0)^(cp/cv)")
        # last value set is the value read, all other settable constants keep theirs
        last = tag.split(", ")
        for nm in setters:
            gt = "G" + nm[1:]
            if gt not in g:
                raise AnalysisBroken("%s has no getter" % nm)
            want = X[nm] if nm in last else call(gt, s0)[1]
            same("setget", W(nm), g[gt], want, tag, "%s returns %s" % (gt, "the value set" if nm in last else "its default"))
    for r in ("definition", "inverse", "triangle", "derived", "setget"):
        c.need(r, 50)
    c.extra["identity_tests"] = {"canonical": ident.canonical, "tested": ident.tested}
    return c.finish("proof", "The constants object is interpreted symbolically after construction and after every setter and ordered pair of setters; every conversion is reduced to a closed formula and compared.",
                    {"definition": "conversions equal their thermodynamic definition in terms of the current R, cp, p0", "inverse": "pairs of conversions are mutual inverses",
                     "triangle": "two routes from rho*theta to Exner pressure agree", "derived": "derived constants follow the primary ones", "setget": "getters return what was set, other constants unchanged"})
