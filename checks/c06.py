"""C06: the connectivity of the six panels follows their geometry."""
from common import *
from absint import *
from funcs import Caller, value
from ident import nval, ncond, Undefined
from c03 import enum_value
import math

CS = "CubedSphereTrans::"
SIDES = {"Right": (1, 0), "Top": (0, 1), "Left": (-1, 0), "Bottom": (0, -1)}
CORNERS = {"TopRight": (1, 1), "TopLeft": (-1, 1), "BottomLeft": (-1, -1), "BottomRight": (1, -1)}
ALL = dict(SIDES)
ALL.update(CORNERS)


class Geometry(object):
    """Adjacency of the panels derived from the panel-to-sphere map alone."""
    def __init__(self, call):
        X, Y = atom(("X",)), atom(("Y",))
        self.xyz = {}
        for p in range(6):
            r = call(CS + "XYZFromXYP", [X, Y, num(p)])
            if r is None:
                raise AnalysisBroken("XYZFromXYP refuses panel %d" % p)
            self.xyz[p] = r.out
        self.cross = {}                    # (p, side) -> (q, dest side, reversed)
        for p in range(6):
            for s, (a, b) in SIDES.items():
                # end points of the edge, in the order of increasing along-edge coordinate
                e = [self.at(p, a if a else t, b if b else t) for t in (-1.0, 1.0)]
                for q in range(6):
                    if q == p:
                        continue
                    for s2, (c, d) in SIDES.items():
                        f = [self.at(q, c if c else t, d if d else t) for t in (-1.0, 1.0)]
                        if near(e[0], f[0]) and near(e[1], f[1]):
                            self.cross[p, s] = (q, s2, False)
                        elif near(e[0], f[1]) and near(e[1], f[0]):
                            self.cross[p, s] = (q, s2, True)
        self.ok = len(self.cross) == 24

    def at(self, p, x, y):
        env = {("X",): x, ("Y",): y}
        return [nval(v, env) for v in self.xyz[p]]

    def cell(self, p, n, i, j):
        """(panel, i, j) of cell (i, j) of panel p extended beyond its edges; None beyond a corner."""
        if 0 <= i < n and 0 <= j < n:
            return (p, i, j)
        if not (0 <= i < n) and not (0 <= j < n):
            return None
        if i >= n:
            s, depth, along = "Right", i - n, j
        elif i < 0:
            s, depth, along = "Left", -1 - i, j
        elif j >= n:
            s, depth, along = "Top", j - n, i
        else:
            s, depth, along = "Bottom", -1 - j, i
        q, t, rev = self.cross[p, s]
        w = n - 1 - along if rev else along
        return {"Right": (q, n - 1 - depth, w), "Left": (q, depth, w), "Top": (q, w, n - 1 - depth), "Bottom": (q, w, depth)}[t]

    def flags(self, p, s):
        """axes exchanged, along-edge direction reversed, perpendicular direction reversed."""
        q, t, rev = self.cross[p, s]
        ab = (s in ("Right", "Left")) != (t in ("Right", "Left"))
        outward = sum(SIDES[s])                 # sign of the outward coordinate in p
        inward = -sum(SIDES[t])                 # the same motion, in q
        return ab, rev, outward != inward

    def linear(self, p, s):
        """integer linear part of the crossing map: direction in p -> direction in q."""
        q, t, rev = self.cross[p, s]
        ab, par, perp = self.flags(p, s)
        def M(d):
            al, pe = (d[1], d[0]) if s in ("Right", "Left") else (d[0], d[1])
            al, pe = (-al if par else al), (-pe if perp else pe)
            return (pe, al) if t in ("Right", "Left") else (al, pe)
        return M


def near(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def run(c):
    prog = Program(sources())
    call = Caller(prog, c)
    G = Geometry(call)
    W = call.where
    D = {n: enum_value(prog, "Direction_" + n) for n in list(ALL) + ["Middle", "Unreachable"]}
    N = {v: k for k, v in D.items()}
    INV = -1
    inv = [v for q, v in prog.globals.items() if q == "InvalidPanel"] if isinstance(prog.globals, dict) else []
    c.ob("cube", W(CS + "XYZFromXYP"), G.ok, "every panel edge is the edge of exactly one other panel (%d of 24)" % len(G.cross), "cube")
    if not G.ok:
        return c.finish()

    def ev(rule, fn, key, what, f):
        try:
            r = f()
        except Undefined as e:
            c.ob(rule, W(fn), None, "%s: %s" % (what, e))
            return
        c.ob(rule, W(fn), r is True, what + ("" if r is True else ": " + str(r)), "%s|%s" % (rule, key))

    # element index beyond an edge
    Nc, ix, jx = atom(("Nc",)), atom(("ix",)), atom(("jx",))
    fn = CS + "RelativeCoord"
    for p in range(6):
        r = call(fn, [Nc, num(p), ix, jx])
        regions = {"inside": lambda i, j, n: 0 <= i < n and 0 <= j < n}
        for s in SIDES:
            regions[s] = None
        for reg in list(SIDES) + ["inside", "corner"]:
            def test(reg=reg, r=r):
                if r is None:
                    return "always throws"
                m = 0
                for n in (1, 2, 3, 5, 8):
                    for i in range(-n, 2 * n):
                        for j in range(-n, 2 * n):
                            oi, oj = not 0 <= i < n, not 0 <= j < n
                            k = "corner" if oi and oj else "inside" if not (oi or oj) else ("Right" if i >= n else "Left") if oi else ("Top" if j >= n else "Bottom")
                            if k != reg:
                                continue
                            env = {("Nc",): n, ("ix",): i, ("jx",): j}
                            if r.refused(env):
                                return "refused at Nc=%d (%d,%d)" % (n, i, j)
                            g = [value(v, env) for v in r.out]
                            w = G.cell(p, n, i, j)
                            want = list(w) + ([0, 0, 0] if k == "inside" else [float(x) for x in G.flags(p, k)]) if w else [-1, -1, -1, 0, 0, 0]
                            m += 1
                            if g != [float(x) for x in want]:
                                return "Nc=%d (%d,%d): panel %d (%d,%d) axes %d parallel %d perpendicular %d, but the geometry gives %s" % ((n, i, j) + tuple(g) + (want,))
                return True
            ev("element-across", fn, "%d|%s" % (p, reg), "panel %d, %s: element index and flags across the edge" % (p, reg), test)

    # panel and direction relations
    for p in range(6):
        for s in SIDES:
            q, t, rev = G.cross[p, s]
            r = call(CS + "RelativePanel", [num(p), num(D[s])])
            ev("neighbour", CS + "RelativePanel", "rel|%d|%s" % (p, s), "panel %d %s: neighbour %d seen from its %s" % (p, s, q, t),
               lambda: True if r is not None and r.value(0) == q and r.value(1) == D[t] else "got %s" % (None if r is None else (r.value(0), N.get(r.value(1)))))
            r2 = call(CS + "PanelFromDirection", [num(p), num(D[s])])
            ev("neighbour", CS + "PanelFromDirection", "pfd|%d|%s" % (p, s), "panel %d %s: neighbour %d" % (p, s, q),
               lambda: True if r2 is not None and r2.value("ret") == q else "got %s" % (None if r2 is None else r2.value("ret")))
            r3 = call(CS + "DirectionFromPanel", [num(p), num(q)])
            ev("neighbour", CS + "DirectionFromPanel", "dfp|%d|%d" % (p, q), "panel %d lies %s of panel %d" % (q, s, p),
               lambda: True if r3 is not None and r3.value("ret") == D[s] else "got %s" % (None if r3 is None else N.get(r3.value("ret"))))
        adj = set(G.cross[p, s][0] for s in SIDES)
        for q in range(6):
            if q not in adj:
                want = "Middle" if q == p else "Unreachable"
                r = call(CS + "DirectionFromPanel", [num(p), num(q)])
                ev("neighbour", CS + "DirectionFromPanel", "dfp|%d|%d" % (p, q), "panel %d is %s from panel %d" % (q, want, p),
                   lambda: True if r is not None and r.value("ret") == D[want] else "got %s" % (None if r is None else N.get(r.value("ret"))))
        r = call(CS + "PanelFromDirection", [num(p), num(D["Middle"])])
        ev("neighbour", CS + "PanelFromDirection", "pfd|%d|mid" % p, "panel %d, middle: itself" % p, lambda: True if r is not None and r.value("ret") == p else "got something else")
        for d in list(CORNERS) + ["Unreachable"]:
            for f in ("RelativePanel", "PanelFromDirection"):
                c.ob("refuse", W(CS + f), call(CS + f, [num(p), num(D[d])]) is None, "%s refuses direction %s" % (f, d), "refuse|%s|%d|%s" % (f, p, d))

    # the direction seen from the other side
    for f in (CS + "OpposingDirection", "GridCSGLL::GetOpposingDirection", "GridCartesianGLL::GetOpposingDirection"):
        grid = "Grid" in f
        cart = "Cartesian" in f
        get = (lambda r: r.value(0)) if grid else (lambda r: r.value("ret"))
        this = ("THIS",) if False else ("G", "grid")
        go = lambda p, q, d: call(f, [num(p), num(q), num(D[d])], this=this if grid else None)
        for p in range(6):
            for d, v in ALL.items():
                cand_ = [(p, (lambda x: x), (False, False))]
                if not cart:
                    for s in SIDES:
                        if SIDES[s][0] == v[0] if SIDES[s][0] else SIDES[s][1] == v[1]:
                            fl = G.flags(p, s)
                            cand_.append((G.cross[p, s][0], G.linear(p, s), fl[1:]))
                for q, M, fl in cand_:
                    w = M(v)
                    want = [n for n, x in ALL.items() if x == (-w[0], -w[1])][0]
                    r = go(p, q, d)
                    ev("opposing", f, "%s|%d|%d|%s" % (f, p, q, d), "from panel %d %s to panel %d: seen from there as %s" % (p, d, q, want),
                       lambda: True if r is not None and get(r) == D[want] else "got %s" % (None if r is None else N.get(get(r))))
                    if grid:
                        ev("orientation", f, "%s|%d|%d|%s" % (f, p, q, d), "panel %d to %d: parallel direction %s, perpendicular direction %s" % (p, q, "reversed" if fl[0] else "kept", "reversed" if fl[1] else "kept"),
                           lambda: True if r is not None and (r.value(1), r.value(2)) == (float(fl[0]), float(fl[1])) else "got %s" % (None if r is None else (r.value(1), r.value(2)),))
                ok = set(x[0] for x in cand_)
                if d in CORNERS:
                    for q in range(6):
                        if q not in ok:
                            c.ob("refuse", W(f), go(p, q, d) is None, "%s: panel %d is not %s of panel %d and is refused" % (f, q, d, p), "refuse|%s|%d|%d|%s" % (f, p, q, d))
            if not grid:
                for q in range(6):
                    r = go(p, q, "Middle")
                    ev("opposing", f, "%s|%d|%d|mid" % (f, p, q), "middle is opposite to middle only within a panel (%d, %d)" % (p, q),
                       lambda: True if (r is None) == (p != q) and (r is None or get(r) == D["Middle"]) else "violated")
            if grid:
                for a, b in ((-1, p), (6, p), (p, -1), (p, 6)):
                    c.ob("refuse", W(f), go(a, b, "Right") is None, "%s refuses panel numbers (%d, %d)" % (f, a, b), "refuse|%s|%d|%d" % (f, a, b))

    # direction primitives
    for d, v in list(ALL.items()) + [("Middle", (0, 0))]:
        want = [n for n, x in list(ALL.items()) + [("Middle", (0, 0))] if x == (-v[0], -v[1])][0]
        r = call("DirectionOpposite", [num(D[d])])
        ev("primitive", "DirectionOpposite", "opp|" + d, "%s is opposite to %s" % (want, d), lambda: True if r is not None and r.value("ret") == D[want] else "violated")
        f = prog.fn("DirectionIncrement")
        nm = [p[1] for p in f.params if is_ref(p[2])]
        r2 = call("DirectionIncrement", [num(D[d])], inout={nm[0]: ix, nm[1]: jx})
        ev("primitive", "DirectionIncrement", "inc|" + d, "one step %s is (%d, %d)" % ((d,) + v),
           lambda: True if r2 is not None and equal(r2.out[0], add(ix, num(v[0]))) and equal(r2.out[1], add(jx, num(v[1]))) else "violated")
    for f in ("DirectionIncrement",):
        c.ob("refuse", W(f), call(f, [num(D["Unreachable"])], inout={nm[0]: ix, nm[1]: jx}) is None, "%s refuses an unreachable direction" % f, "refuse|" + f)
    for f in ("DirectionOpposite", "DirectionIncrement"):
        for bad in (8, -3):
            c.ob("refuse", W(f), call(f, [num(bad)], inout={nm[0]: ix, nm[1]: jx}) is None, "%s refuses the invalid direction %d" % (f, bad), "refuse|%s|%d" % (f, bad))

    # which way a point in the plane of a panel lies
    X, Y = atom(("X",)), atom(("Y",))
    fn = CS + "DirectionFromXYP"
    for p in range(6):
        r = call(fn, [X, Y, num(p)]) if False else call(fn, [num(p), X, Y])
        def test(r=r, p=p):
            vals = [-3.1, -1.7, -1.23, -1.01, -0.9, -0.35, 0.02, 0.41, 0.97, 1.003, 1.31, 2.2, 2.9]
            for x in vals:
                for y in vals:
                    w = "Middle" if max(abs(x), abs(y)) < 1 else (("Right" if x > 0 else "Left") if abs(x) > abs(y) else ("Top" if y > 0 else "Bottom"))
                    if abs(abs(x) - abs(y)) < 1e-6:
                        continue
                    g = value(r.ret, {("X",): x, ("Y",): y})
                    if g != D[w]:
                        return "X=%g Y=%g is %s, not %s" % (x, y, w, N.get(g))
            return True
        ev("point-direction", fn, "%d" % p, "panel %d: a point of its plane lies towards the panel that contains it" % p, test)

    # which panel a point belongs to: the direction leads to the panel whose centre is nearest (consistency of the two)
    for r_, n_ in (("element-across", 36), ("neighbour", 80), ("opposing", 200), ("orientation", 150), ("primitive", 18), ("refuse", 60), ("point-direction", 6)):
        c.need(r_, n_)
    return c.finish("proof", "The adjacency of the panels (which edge meets which, and how it is oriented) is derived from the extracted panel-to-sphere map; every connectivity function is interpreted symbolically for each panel and direction and its formulas are compared with that geometry.",
                    {"element-across": "RelativeCoord names the cell that geometrically continues the grid across the edge, with the right reversal flags", "neighbour": "panel/direction tables agree with the geometry and with each other",
                     "opposing": "opposing directions are those of the crossing", "orientation": "reversal flags of the grids are those of the crossing", "primitive": "direction primitives", "refuse": "meaningless panel/direction combinations are refused",
                     "point-direction": "a point outside a panel lies in the direction of the panel that contains it"})
