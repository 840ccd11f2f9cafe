"""Time-integration schemes: every scheme the programs can select is interpreted (coefficients by constant
propagation) into its sequence of operations on data slots; slots carry coloured B-series."""
import re
from common import *
from absint import *
import sym

GRID_OPS = {"Grid::CopyData", "Grid::LinearCombineData", "Grid::ZeroData", "Grid::PostProcessSubstage"}
DYN_COLOUR = {"HorizontalDynamics::StepExplicit": ("E", "H"), "VerticalDynamics::StepExplicit": ("E", "V"),
              "VerticalDynamics::ForceStepExplicit": ("E", "G"),
              "VerticalDynamics::StepImplicitTermsExplicitly": ("E", "G"),
              "VerticalDynamics::StepImplicit": ("I", "G"), "HorizontalDynamics::StepImplicit": ("I", "K")}
TYPES = {}


class SchemeInterp(Interp):
    f2i_value = None

    def e_cast(self, n, st, fr):
        v = Interp.e_cast(self, n, st, fr)
        if n[2] == "f2i" and isinstance(v, Poly) and not v.is_const() and self.f2i_value is not None:
            self.f2i_used = True
            return num(self.f2i_value)
        return v


def root_method(prog, qual):
    return qual


def scheme_instances(prog):
    """(class, constructor args as constants) for every `new Scheme(...)` in the programs."""
    subs = set(prog.subclasses("TimestepScheme"))
    out = {}
    for f in prog.fns.values():
        for n in walk(f.body):
            if n[0] == "new" and n[2] in subs and n[3] is not None and n[3][0] == "ctor":
                args = []
                for a in n[3][4][1:]:
                    args.append(a)
                key = (n[2], json.dumps([strip(a) for a in args]))
                out.setdefault(key, (n[2], n[3], args, (f.file, n[1], f.qual)))
    return list(out.values()), subs


def strip(n):
    if isinstance(n, list):
        return [n[0]] + [strip(x) for x in n[2:]] if n and isinstance(n[0], str) and len(n) > 1 and isinstance(n[1], int) else [strip(x) for x in n]
    return n


def make_hook(prog, ops):
    def hook(I, st, fr, n, key, qual, place, args):
        # resolve to the root declaration of virtual methods
        base = root_of(prog, key, qual)
        if base in GRID_OPS:
            name = base.split("::")[1]
            if name == "LinearCombineData":
                arr = I.obj_place(args[0], st, fr)
                d = I.as_num(I.ev(args[1], st, fr))
                t = I.as_num(I.ev(args[2], st, fr))
                size = st.store.get(("EXT", arr, 0))
                co = []
                if size is not None and size.is_const():
                    for i in range(int(size.const())):
                        co.append(I.load_elem(st, ("E", arr, (num(i),)), "f"))
                st.event("op", name, (d, t, size, tuple(co)), I.where(n))
            else:
                vals = tuple(I.as_num(I.ev(a, st, fr)) for a in args)
                st.event("op", name, vals, I.where(n))
            return ("opq", ("void",))
        if base in DYN_COLOUR and not (base == "HorizontalDynamics::StepImplicit" and not prog.all_overriders(root_key(prog, key))):
            a, u = I.as_num(I.ev(args[0], st, fr)), I.as_num(I.ev(args[1], st, fr))
            dt = I.as_num(I.ev(args[3], st, fr))
            st.event("op", base, (a, u, dt), I.where(n))
            return ("opq", ("void",))
        if base in ("HorizontalDynamics::StepAfterSubCycle", "VerticalDynamics::StepAfterSubCycle"):
            if base.startswith("Vertical") and not prog.all_overriders(root_key(prog, key)):
                return NotImplemented
            vals = tuple(I.as_num(I.ev(a, st, fr)) for a in args[:3])
            dt = I.as_num(I.ev(args[4], st, fr))
            st.event("op", "StepAfterSubCycle", vals + (dt,), I.where(n))
            return ("opq", ("void",))
        if base == "VerticalDynamics::FilterNegativeTracers":
            v = I.as_num(I.ev(args[0], st, fr))
            st.event("op", "Filter", (v,), I.where(n))
            return ("opq", ("void",))
        if base.startswith(("FunctionTimer::", "AnnounceBanner", "Announce")):
            return ("opq", ("void",))
        if base.startswith(("HorizontalDynamics::", "VerticalDynamics::")) and prog.classes:
            rk = root_key(prog, key)
            if prog.all_overriders(rk):
                return NotImplemented
            f = prog.fns.get(rk)
            if f is not None and place is not None:
                return I.invoke(f, place, args, st, fr, n)
        return NotImplemented
    return hook


def root_key(prog, key):
    """key of the topmost overridden declaration."""
    while True:
        f = prog.fns.get(key)
        if f is None or not f.overrides:
            return key
        key = f.overrides[0]


def root_of(prog, key, qual):
    k = root_key(prog, key)
    f = prog.fns.get(k)
    if f is not None:
        return f.qual
    if k != key:
        for c in prog.classes.values():
            for m in c["methods"]:
                if m[0] == k:
                    return m[1]
    return qual


def analyse(prog, inst, first, last, ns=1):
    cls, ctor, args, where = inst
    I = SchemeInterp(prog)
    I.arrays, I.ranks, I.place_types = set(), {}, {}
    I.unroll = 40
    I.f2i_value = ns
    I.f2i_used = False
    I.call_hook = make_hook(prog, None)
    this = ("scheme",)
    I.dynclass = lambda p: cls if p == this else None
    st = State()
    c = prog.fns.get(ctor[3])
    if c is None:
        raise AnalysisBroken("constructor of %s not found" % cls)
    # caller frame for the constructor arguments
    dummy = Frame(c, None, I.new_uid())
    I.stack.append(dummy)
    dummy.env[ctor[4][0][2] if ctor[4][0][0] == "var" else -1] = ("MODEL",)
    I.invoke(c, this, ctor[4], st, dummy, ctor)
    if st.dead:
        raise AnalysisBroken("constructor of %s always throws" % cls)

    def method(name):
        for k in [cls] + prog.bases(cls):
            for f in prog.byqual.get(k + "::" + name, []):
                return f
        raise AnalysisBroken("no %s::%s" % (cls, name))
    counts = []
    for nm in ("GetComponentDataInstances", "GetTracerDataInstances"):
        v = I.invoke(method(nm), this, [], st.fork(), dummy, ctor)
        counts.append(int(v.const()) if isinstance(v, Poly) and v.const() is not None else None)
    init = method("Initialize")
    I.invoke(init, this, [], st, dummy, ctor)
    st.trace = None
    step = method("Step")
    s, ret = run_function(I, step, this, {"fFirstStep": T if first else F, "fLastStep": T if last else F, "dDeltaT": atom(("dt",))}, st) \
        if [p[1] for p in step.params][:2] == ["fFirstStep", "fLastStep"] else run_function(I, step, this, {
            step.params[0][1]: T if first else F, step.params[1][1]: T if last else F, step.params[3][1]: atom(("dt",))}, st)
    if s is None:
        return None
    paths = linearise(trace_list(s.trace))
    return {"paths": paths, "counts": counts, "fns": set(I.fnlog), "step": step, "f2i": I.f2i_used, "unsup": dict(I.unsupported)}


def has_op(evs):
    return any(e[0] == "op" or (e[0] == "if" and (has_op(e[2]) or has_op(e[3]))) or (e[0] == "loop" and has_op(e[3])) or (e[0] in ("break", "return") and has_op(e[2])) for e in evs)


def linearise(evs):
    """operation sequences of every path."""
    paths = [[]]
    for e in evs:
        if e[0] == "op":
            for p in paths:
                p.append(e[1:])
        elif e[0] == "if" and (has_op(e[2]) or has_op(e[3])):
            a, b = linearise(e[2]), linearise(e[3])
            paths = [p + q for p in paths for q in a + b]
            if len(paths) > 64:
                raise AnalysisBroken("too many paths in a time scheme")
        elif e[0] == "loop" and has_op(e[3]):
            raise AnalysisBroken("unresolved loop around slot operations at %s:%d" % e[4][:2])
    return paths


# ---------------------------------------------------------------- coloured rooted trees
def trees(maxorder, colours):
    byorder = {1: [(c, ()) for c in colours]}
    for o in range(2, maxorder + 1):
        out = []
        for part in partitions(o - 1):
            for subs in multisets(part, byorder):
                for c in colours:
                    out.append((c, tuple(sorted(subs))))
        byorder[o] = sorted(set(out))
    return byorder


def partitions(n, mx=None):
    mx = mx or n
    if n == 0:
        yield ()
        return
    for k in range(min(n, mx), 0, -1):
        for p in partitions(n - k, k):
            yield (k,) + p


def multisets(part, byorder):
    if not part:
        yield ()
        return
    for t in byorder[part[0]]:
        for r in multisets(part[1:], byorder):
            yield (t,) + r


def order(t):
    return 1 + sum(order(s) for s in t[1])


def gamma(t):
    g = order(t)
    for s in t[1]:
        g *= gamma(s)
    return g


def showtree(t):
    return t[0] + ("(" + ",".join(showtree(s) for s in t[1]) + ")" if t[1] else "")


EMPTY = "0"


class BS(object):
    """B-series: coefficient of the identity and of every tree (grade o carries dt^o)."""

    def __init__(self, TR, a=None):
        self.TR = TR
        self.a = a or {}

    def comb(self, k, o, ko):
        a = {}
        for t in set(self.a) | set(o.a):
            v = k * self.a.get(t, 0.0) + ko * o.a.get(t, 0.0)
            if v != 0.0:
                a[t] = v
        return BS(self.TR, a)

    def f(self, colour):
        """vector field of `colour` at this point (identity coefficient must be one)."""
        a = {}
        for o in self.TR:
            for t in self.TR[o]:
                if t[0] != colour:
                    continue
                v = 1.0
                for s in t[1]:
                    v *= self.a.get(s, 0.0)
                    if v == 0.0:
                        break
                if v != 0.0:
                    a[t] = v
        return BS(self.TR, a)

    def implicit(self, colour, h):
        """y = self + h*G(y), grade by grade."""
        y = BS(self.TR, dict(self.a))
        for o in sorted(self.TR):
            g = y.f(colour)
            for t in self.TR[o]:
                v = self.a.get(t, 0.0) + h * g.a.get(t, 0.0)
                if v != 0.0:
                    y.a[t] = v
                else:
                    y.a.pop(t, None)
        return y

    def dist(self, o):
        return max([abs(self.a.get(t, 0.0) - o.a.get(t, 0.0)) for t in set(self.a) | set(o.a)] or [0.0])


def exact(TR, colours):
    a = {EMPTY: 1.0}
    for o in TR:
        for t in TR[o]:
            a[t] = 1.0 / gamma(t)
    return BS(TR, a)
