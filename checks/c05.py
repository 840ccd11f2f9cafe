"""C05: the coordinate and vector transforms of the cubed sphere describe one and the same sphere."""
from common import *
from absint import *
from ident import Identity, diff, Undefined, nval, ncond
import sym, math

CS = "CubedSphereTrans"
OUT = ("o1", "o2", "o3")


def run(c):
    prog = Program(sources())
    ident = Identity(seed=5, n=40, tol=1e-8)
    X, Y = atom(("X",)), atom(("Y",))

    def fnd(name):
        return prog.fn(CS + "::" + name)

    last = [None]

    def refused(env):
        return any(ncond(p, env) for p in last[0])

    def call(name, ins, inout=None, nout=None):
        """interpret CubedSphereTrans::name; reference parameters become outputs."""
        f = fnd(name)
        I = new_interp(prog)
        st = State()
        args = {}
        outs = []
        k = 0
        for pid, nm, t in f.params:
            if is_ref(t) and "const" not in t:
                pl = ("G", "out_%s_%s" % (name, nm))
                args[nm] = ("PLACE", pl)
                I.place_types[pl] = t.replace("&", "").strip()
                outs.append((pl, scalar_code(t.replace("&", "").strip())))
                if inout:
                    st.store[pl] = inout[len(outs) - 1]
            else:
                args[nm] = ins[k]
                k += 1
        s, r = run_function(I, f, None, args, st)
        c.functions |= set(I.fnlog)
        last[0] = [t[0] for t in I.throws]
        if s is None:
            return None
        if not outs:
            return r
        v = [I.load(s, pl, sc) for pl, sc in outs]
        return v

    W = lambda n: (fnd(n).file, fnd(n).line, fnd(n).qual)

    def drawxy(r):
        return {("X",): r.choice([r.uniform(-1.2, 1.2), r.uniform(-1, 1), r.uniform(-0.05, 0.05), 0.0]),
                ("Y",): r.choice([r.uniform(-1.2, 1.2), r.uniform(-1, 1), r.uniform(-0.05, 0.05), 0.0]),
                ("u",): r.uniform(-30, 30), ("v",): r.uniform(-30, 30), ("dX",): r.uniform(0.05, 0.4), ("dY",): r.uniform(0.05, 0.4), ("rad",): r.uniform(0.5, 2)}

    def drawxy0(r):
        """away from the two poles (treated separately) and the coordinate axes."""
        e = drawxy(r)
        while e[("X",)] ** 2 + e[("Y",)] ** 2 < 1e-6:
            e = drawxy(r)
        return e

    def drawrll(r):
        lat = r.choice([r.uniform(-1.55, 1.55), r.uniform(-0.7, 0.7), 0.0])
        return {("lon",): r.uniform(0, 6.283185), ("lat",): lat}

    def same(rule, name, a, b, what, draw=drawxy0):
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            c.ob(rule, W(name), None, "%s: value not resolved" % what)
            return
        try:
            ok, how = ident(a, b, draw)
        except Undefined as e:
            ok, how = None, str(e)
        c.ob(rule, W(name), ok, "%s: %s" % (what, how), "%s|%s" % (rule, what))

    xyz, rll = {}, {}
    A1, B1 = add(ONE, mul(X, X)), add(ONE, mul(Y, Y))
    for p in range(6):
        P = num(p)
        xyz[p] = call("XYZFromXYP", [X, Y, P])
        rll[p] = call("RLLFromXYP", [X, Y, P])
        if xyz[p] is None or rll[p] is None:
            c.ob("position", W("XYZFromXYP"), False, "panel %d always throws" % p)
            return c.finish()
        lon, lat = rll[p]
        sph = [mul(sym.fn("cos", lon), sym.fn("cos", lat)), mul(sym.fn("sin", lon), sym.fn("cos", lat)), sym.fn("sin", lat)]
        same("position", "XYZFromXYP", sum_(mul(a, a) for a in xyz[p]), ONE, "panel %d: points lie on the unit sphere" % p)
        for k in range(3):
            same("position", "RLLFromXYP", sph[k], xyz[p][k], "panel %d: longitude and latitude give Cartesian coordinate %d" % (p, k), drawxy)
        # longitude in [0, 2 pi)
        for e in grid_points():
            env = {("X",): e[0], ("Y",): e[1]}
            v = nval(lon, env)
            ok = -1e-15 <= v < 2 * math.pi + 1e-12
            if not ok:
                c.ob("position", W("RLLFromXYP"), False, "panel %d: longitude %g at X=%g Y=%g outside [0,2pi)" % (p, v, e[0], e[1]), "lonrange|%d" % p)
                break
        else:
            c.ob("position", W("RLLFromXYP"), True, "panel %d: longitude in [0,2pi)" % p)
        ab = call("RLLFromABP", [sym.fn("atan", X), sym.fn("atan", Y), P])
        for k, nm in enumerate(("longitude", "latitude")):
            same("position", "RLLFromABP", ab[k], rll[p][k], "panel %d: %s from equiangular coordinates" % (p, nm), drawxy)
    # handedness and adjacency of the panels are those of a cube: X x Y points outward
    for p in range(6):
        ea = [diff(xyz[p][k], ("X",)) for k in range(3)]
        eb = [diff(xyz[p][k], ("Y",)) for k in range(3)]
        cr = [sub(mul(ea[(k + 1) % 3], eb[(k + 2) % 3]), mul(ea[(k + 2) % 3], eb[(k + 1) % 3])) for k in range(3)]
        d = sum_(mul(cr[k], xyz[p][k]) for k in range(3))
        same("position", "XYZFromXYP", d, sym.fn("pow", add(A1, mul(Y, Y)), num(Fraction(-3, 2))), "panel %d: right-handed, with the gnomonic area density" % p)
    # panel to panel
    for p in range(6):
        for q in range(6):
            r = call("XYPFromXYP", [X, Y, num(p), num(q)])
            opp = dotc(xyz[p], xyz[q])
            bad = None
            for e in grid_points():
                env = {("X",): e[0], ("Y",): e[1]}
                fr_ = sum(nval(a, env) * nval(b, {("X",): 0.0, ("Y",): 0.0}) for a, b in zip(xyz[p], xyz[q]))
                if abs(fr_) > 1e-9 and (r is None or refused(env)) != (fr_ < 0):
                    bad = e
            c.ob("panel-change", W("XYPFromXYP"), bad is None, "panel %d to %d: exactly the points in front of the destination panel are accepted%s" % (p, q, "" if bad is None else " (not at X=%g Y=%g)" % bad),
                 "panel-change|accept|%d|%d" % (p, q))
            if r is None or opp < -0.5:
                continue
            dst = [subst(v, {("X",): r[0], ("Y",): r[1]}) for v in xyz[q]]
            for k in range(3):
                same("panel-change", "XYPFromXYP", dst[k], xyz[p][k], "panel %d to %d: same point, coordinate %d" % (p, q, k),
                     lambda rr, p=p, q=q: front(rr, drawxy, xyz, p, q))
    for name, bad in (("XYZFromXYP", [X, Y, num(6)]), ("XYZFromXYP", [X, Y, num(-1)]), ("RLLFromXYP", [X, Y, num(6)]), ("XYPFromXYP", [X, Y, num(6), ZERO]), ("XYPFromXYP", [X, Y, ZERO, num(6)])):
        c.ob("reject", W(name), call(name, bad) is None, "%s refuses a panel outside 0..5" % name, "reject|%s|%d" % (name, bad.index(num(6)) if num(6) in bad else 0))
    # from longitude and latitude
    lon, lat = atom(("lon",)), atom(("lat",))
    sph = [mul(sym.fn("cos", lon), sym.fn("cos", lat)), mul(sym.fn("sin", lon), sym.fn("cos", lat)), sym.fn("sin", lat)]
    for name in ("XYPFromRLL", "ABPFromRLL"):
        r = call(name, [lon, lat])
        if r is None:
            c.ob("from-lonlat", W(name), False, "%s always throws" % name)
            continue
        x, y, n = r
        if name == "ABPFromRLL":
            x, y = sym.fn("tan", x), sym.fn("tan", y)
        for k in range(3):
            v = ZERO
            for p in range(6):
                v = add(v, mul(b2i(eq0(sub(n, num(p)))), subst(xyz[p][k], {("X",): x, ("Y",): y})))
            same("from-lonlat", name, v, sph[k], "%s: the panel coordinates locate the given point, Cartesian coordinate %d" % (name, k), drawrll)
        # coordinates within the panel
        bad = None
        for i in range(49):
            for j in range(25):
                env = {("lon",): i * math.pi / 24 + 0.013, ("lat",): (j - 12) * math.pi / 25.0}
                try:
                    if max(abs(nval(x, env)), abs(nval(y, env))) > 1 + 1e-9:
                        bad = env
                except Undefined as e:
                    bad = env
        c.ob("from-lonlat", W(name), bad is None, "%s: coordinates stay within the panel%s" % (name, "" if bad is None else " (not at %s)" % bad), "from-lonlat|range|%s" % name)
    # vectors
    u, v = atom(("u",)), atom(("v",))
    for p in range(6):
        P = num(p)
        ea = [mul(diff(xyz[p][k], ("X",)), A1) for k in range(3)]      # d/dalpha, dX/dalpha = 1 + X^2
        eb = [mul(diff(xyz[p][k], ("Y",)), B1) for k in range(3)]
        lon, lat = rll[p]
        el = [neg(sym.fn("sin", lon)), sym.fn("cos", lon), ZERO]
        et = [neg(mul(sym.fn("sin", lat), sym.fn("cos", lon))), neg(mul(sym.fn("sin", lat), sym.fn("sin", lon))), sym.fn("cos", lat)]
        pole = {("X",): ZERO, ("Y",): ZERO}
        for where, sb, dr in (("", None, drawxy0),) + ((("at the pole ", pole, drawxy),) if p > 3 else ()):
            z = (lambda w: w) if sb is None else (lambda w: subst(w, sb))
            x0, y0 = z(X), z(Y)
            lo, la = (lon, lat) if sb is None else call("RLLFromXYP", [ZERO, ZERO, P])
            # components of the physical vector
            l = [neg(sym.fn("sin", lo)), sym.fn("cos", lo), ZERO]
            t = [neg(mul(sym.fn("sin", la), sym.fn("cos", lo))), neg(mul(sym.fn("sin", la), sym.fn("sin", lo))), sym.fn("cos", la)]
            def obs(name, ins, f):
                r = call(name, ins)
                if r is None:
                    c.ob("vector", W(name), False, "panel %d %s%s always throws" % (p, where, name), "vector|throws|%s|%d|%s" % (name, p, where))
                    return
                f(r)

            def contra(r):
                for k in range(3):
                    same("vector", "VecTransABPFromRLL", add(mul(r[0], z(ea[k])), mul(r[1], z(eb[k]))), add(mul(u, l[k]), mul(v, t[k])),
                         "panel %d: %scontravariant components reproduce the physical vector (coordinate %d)" % (p, where, k), dr)

            def co(r):
                for k, e in ((0, ea), (1, eb)):
                    same("vector", "CoVecTransABPFromRLL", r[k], sum_(mul(add(mul(u, l[i]), mul(v, t[i])), z(e[i])) for i in range(3)),
                         "panel %d: %scovariant component %d is the projection on the coordinate direction" % (p, where, k), dr)

            def back(name, fwd):
                def g(r):
                    b = call(name, [x0, y0, P, r[0], r[1]])
                    if b is None:
                        c.ob("vector", W(name), False, "panel %d %s%s always throws" % (p, where, name), "vector|throws|%s|%d|%s" % (name, p, where))
                        return
                    same("vector", name, b[0], u, "panel %d: %s%s undoes %s (longitude)" % (p, where, name, fwd), dr)
                    same("vector", name, b[1], v, "panel %d: %s%s undoes %s (latitude)" % (p, where, name, fwd), dr)
                return g
            obs("VecTransABPFromRLL", [x0, y0, P, u, v], contra)
            obs("CoVecTransABPFromRLL", [x0, y0, P, u, v], co)
            obs("VecTransABPFromRLL", [x0, y0, P, u, v], back("VecTransRLLFromABP", "VecTransABPFromRLL"))
            obs("CoVecTransABPFromRLL", [x0, y0, P, u, v], back("CoVecTransRLLFromABP", "CoVecTransABPFromRLL"))
    # panel-to-panel vectors
    f = prog.fn(CS + "::VecPanelTrans", must=False)
    if f is not None:
        for p in range(6):
            for q in range(6):
                if p == q or dotc(xyz[p], xyz[q]) < -0.5:
                    continue
                r = call("XYPFromXYP", [X, Y, num(p), num(q)])
                if r is None:
                    continue
                o = call("VecPanelTrans", [num(p), num(q), r[0], r[1]], inout=[u, v])
                if o is None:
                    c.ob("vector", W("VecPanelTrans"), False, "panel %d to %d always throws" % (p, q), "vecpanel|%d|%d" % (p, q))
                    continue
                ea = [mul(diff(xyz[p][k], ("X",)), A1) for k in range(3)]
                eb = [mul(diff(xyz[p][k], ("Y",)), B1) for k in range(3)]
                mp = {("X",): r[0], ("Y",): r[1]}
                fa = [subst(mul(diff(xyz[q][k], ("X",)), A1), mp) for k in range(3)]
                fb = [subst(mul(diff(xyz[q][k], ("Y",)), B1), mp) for k in range(3)]
                for k in range(3):
                    same("vector", "VecPanelTrans", add(mul(o[0], fa[k]), mul(o[1], fb[k])), add(mul(u, ea[k]), mul(v, eb[k])),
                         "vector carried from panel %d to %d (coordinate %d)" % (p, q, k), lambda rr, p=p, q=q: front(rr, drawxy0, xyz, p, q))
                # covariant components: their pairing with any contravariant vector does not depend on the panel
                if prog.fn(CS + "::CoVecPanelTrans", must=False) is None:
                    continue
                s_, t_ = atom(("s",)), atom(("t",))
                w = call("CoVecPanelTrans", [num(p), num(q), r[0], r[1]], inout=[s_, t_])
                if w is None:
                    c.ob("vector", W("CoVecPanelTrans"), False, "panel %d to %d always throws" % (p, q), "covecpanel|%d|%d" % (p, q))
                    continue
                same("vector", "CoVecPanelTrans", add(mul(o[0], w[0]), mul(o[1], w[1])), add(mul(u, s_), mul(v, t_)),
                     "covariant components carried from panel %d to %d pair with vectors as before" % (p, q), lambda rr, p=p, q=q: plus(front(rr, drawxy0, xyz, p, q), {("s",): rr.uniform(-2, 2), ("t",): rr.uniform(-2, 2)}))
    # element areas: the mixed derivative is the area density
    f = prog.fn(CS + "::GnomonicElementArea", must=False)
    if f is not None:
        dx, dy, rad = atom(("dX",)), atom(("dY",)), atom(("rad",))
        a = call("GnomonicElementArea", [X, dx, Y, dy, rad])
        if isinstance(a, Poly):
            x1, y1 = add(X, dx), add(Y, dy)
            d = diff(diff(a, ("dX",)), ("dY",))
            same("area", "GnomonicElementArea", d, mul(mul(rad, rad), sym.fn("pow", add(add(ONE, mul(x1, x1)), mul(y1, y1)), num(Fraction(-3, 2)))), "area density of a gnomonic element", drawxy)
            same("area", "GnomonicElementArea", subst(a, {("dX",): ZERO}), ZERO, "empty element has no area (X)", drawxy)
            same("area", "GnomonicElementArea", subst(a, {("dY",): ZERO}), ZERO, "empty element has no area (Y)", drawxy)
        else:
            c.ob("area", W("GnomonicElementArea"), None, "value not resolved")
    for r, n in (("position", 40), ("panel-change", 80), ("from-lonlat", 6), ("vector", 90), ("reject", 4)):
        c.need(r, n)
    c.extra["identity_tests"] = {"canonical": ident.canonical, "tested": ident.tested}
    return c.finish("proof", "Every transform is interpreted symbolically for each of the six panels (and pairs of panels); outputs are closed formulas compared with the formulas obtained from the panel-to-sphere map by substitution and differentiation.",
                    {"position": "XYZ, longitude/latitude and equiangular coordinates describe the same point of the unit sphere", "panel-change": "panel coordinates of another panel describe the same point, points behind a panel are refused",
                     "from-lonlat": "panel coordinates found for a longitude/latitude locate it and lie within the panel", "vector": "co- and contravariant components represent the same physical vector, conversions back undo them",
                     "area": "area of a gnomonic element", "reject": "panels outside 0..5 are refused"})


def sum_(it):
    r = ZERO
    for x in it:
        r = add(r, x)
    return r


def grid_points():
    v = [-1.0, -0.7, -0.3, -1e-3, 0.0, 1e-3, 0.2, 0.6, 1.0]
    return [(a, b) for a in v for b in v]


def dotc(a, b):
    z = {("X",): 0.0, ("Y",): 0.0}
    return sum(nval(x, z) * nval(y, z) for x, y in zip(a, b))


def front(r, draw, xyz, p, q):
    z = {("X",): 0.0, ("Y",): 0.0}
    while True:
        e = draw(r)
        s = sum(nval(x, e) * nval(y, z) for x, y in zip(xyz[p], xyz[q]))
        if s > 0.02:
            return e


def plus(a, b):
    a = dict(a)
    a.update(b)
    return a
