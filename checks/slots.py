"""Symbolic execution of a scheme's operation sequence over data slots carrying coloured B-series."""
from schemes import *

STATE, TRACERS = 0, 2
TNAME = {0: "state", 2: "tracers"}


class SlotSim(object):
    def __init__(self, c, tag, colours, maxorder, counts, prog):
        self.c, self.tag, self.colours = c, tag, colours
        self.TR = trees(maxorder, colours)
        self.counts = {STATE: counts[0], TRACERS: counts[1]}
        self.slots = {STATE: {}, TRACERS: {}}
        self.raw = {STATE: {}, TRACERS: {}}
        self.viol = []
        self.n = 0
        self.reads = 0

    def v(self, rule, where, what):
        self.viol.append((rule, where, what))

    def idx(self, p, where, types=(STATE, TRACERS)):
        k = p.const() if isinstance(p, Poly) else None
        if k is None or k.denominator != 1:
            raise AnalysisBroken("%s: slot index not constant at %s" % (self.tag, loc(where)))
        k = int(k)
        for t in types:
            if self.counts[t] is None:
                raise AnalysisBroken("%s: instance count not constant" % self.tag)
            if not 0 <= k < self.counts[t]:
                self.v("slot-range", where, "slot %d used but the scheme allocates %d %s instances" % (k, self.counts[t], TNAME[t]))
        return k

    def read(self, t, k, where, why):
        self.reads += 1
        b = self.slots[t].get(k)
        if b is None:
            self.v("stale-slot", where, "%s of slot %d read by %s without having been written in this step" % (TNAME[t], k, why))
            return BS(self.TR, {EMPTY: 1.0})
        return b

    def cooked(self, t, k, where, why):
        if self.raw[t].get(k):
            self.v("unexchanged-slot", where, "%s of slot %d used by %s after an explicit update that was not post-processed (edge averaging and exchange)" % (TNAME[t], k, why))

    def both_equal(self, k, where, why):
        a, b = self.read(STATE, k, where, why), self.read(TRACERS, k, where, why)
        if a.dist(b) > 1e-9:
            self.v("tracer-lockstep", where, "state and tracers of slot %d are at different stages when used by %s" % (k, why))
        return a, b

    def types(self, p, where):
        v = p.const()
        if v is None:
            raise AnalysisBroken("%s: data type not constant at %s" % (self.tag, loc(where)))
        return int(v)

    def f(self, b, col, where, why, k):
        if abs(b.a.get(EMPTY, 0.0) - 1.0) > 1e-9:
            self.v("inconsistent-stage", where, "%s evaluates tendencies on slot %d, whose combination weights sum to %.6g instead of 1" % (why, k, b.a.get(EMPTY, 0.0)))
        return b.f(col)

    def fl(self, p, h):
        x = evalf(p, {("dt",): h})
        if x is None:
            raise AnalysisBroken("%s: value %s not numeric" % (self.tag, show(p)))
        return x

    def run(self, ops, h=1.0):
        for name, a, where in [(o[0], o[1], o[2]) for o in ops]:
            self.n += 1
            if name == "CopyData":
                t = self.types(a[2], where)
                if t not in self.slots:
                    continue
                s, d = self.idx(a[0], where, (t,)), self.idx(a[1], where, (t,))
                self.slots[t][d] = self.read(t, s, where, "CopyData")
                self.raw[t][d] = self.raw[t].get(s, False)
            elif name == "ZeroData":
                t = self.types(a[1], where)
                if t not in self.slots:
                    continue
                d = self.idx(a[0], where, (t,))
                self.slots[t][d] = BS(self.TR)
                self.raw[t][d] = False
            elif name == "LinearCombineData":
                t = self.types(a[1], where)
                if t not in self.slots:
                    continue
                d = self.idx(a[0], where, (t,))
                co = a[3]
                if a[2] is None or a[2].const() is None:
                    raise AnalysisBroken("%s: size of combination unknown at %s" % (self.tag, loc(where)))
                if len(co) > self.counts[t]:
                    self.v("slot-range", where, "combination of %d slots but only %d %s instances" % (len(co), self.counts[t], TNAME[t]))
                if d >= len(co):
                    self.v("slot-range", where, "combination destination %d is outside its %d coefficients" % (d, len(co)))
                r = BS(self.TR)
                for i, p in enumerate(co):
                    x = self.fl(p, h)
                    if x == 0.0:
                        continue
                    r = r.comb(1.0, self.read(t, i, where, "LinearCombineData (coefficient %.6g)" % x), x)
                    self.cooked(t, i, where, "LinearCombineData")
                self.slots[t][d] = r
                self.raw[t][d] = False
            elif name == "PostProcessSubstage":
                t = self.types(a[1], where)
                if t not in self.slots:
                    continue
                k = self.idx(a[0], where, (t,))
                self.read(t, k, where, "PostProcessSubstage")
                self.raw[t][k] = False
            elif name == "Filter":
                k = self.idx(a[0], where, (TRACERS,))
                self.read(TRACERS, k, where, "FilterNegativeTracers")
            elif name == "StepAfterSubCycle":
                i, u, w = (self.idx(x, where) for x in a[:3])
                if len({i, u, w}) != 3:
                    self.v("subcycle-alias", where, "initial/update/work slots %d/%d/%d of the sub-cycle are not distinct" % (i, u, w))
                self.fl(a[3], h)
                s, t = self.both_equal(i, where, "StepAfterSubCycle")
                for ty, b in ((STATE, s), (TRACERS, t)):
                    self.cooked(ty, i, where, "StepAfterSubCycle")
                    self.slots[ty][w] = None
                    self.slots[ty][u] = b
                    self.raw[ty][u] = False
                dtc = self.fl(a[3], h)
                if abs(dtc - h) > 1e-12:
                    self.v("subcycle-dt", where, "sub-cycle advances by %.6g of the step" % (dtc / h))
            elif name in DYN_COLOUR:
                kind, col = DYN_COLOUR[name]
                i, u = self.idx(a[0], where), self.idx(a[1], where)
                dt = self.fl(a[2], h)
                if abs(dt) > 10 * h:
                    raise AnalysisBroken("bad dt")
                if kind == "E":
                    s, t = self.both_equal(i, where, name)
                    for ty, b in ((STATE, s), (TRACERS, t)):
                        if i != u:
                            self.cooked(ty, i, where, name)
                        g = self.f(b, col, where, name, i)
                        self.slots[ty][u] = self.read(ty, u, where, name + " (as its target)").comb(1.0, g, dt)
                        self.raw[ty][u] = True
                    if i == u:
                        self.v("update-alias", where, "%s reads and updates the same slot %d" % (name, i))
                else:
                    s, t = self.both_equal(i, where, name)
                    for ty, b in ((STATE, s), (TRACERS, t)):
                        self.cooked(ty, i, where, name)
                        if abs(b.a.get(EMPTY, 0.0) - 1.0) > 1e-9:
                            self.v("inconsistent-stage", where, "%s solves on slot %d, whose weights sum to %.6g" % (name, i, b.a.get(EMPTY, 0.0)))
                        y = b.implicit(col, dt)
                        d = y.comb(1.0, b, -1.0)
                        if u == i:
                            self.slots[ty][u] = y
                        else:
                            self.slots[ty][u] = self.read(ty, u, where, name + " (as its target)").comb(1.0, d, 1.0)
            else:
                raise AnalysisBroken("unknown operation " + name)
