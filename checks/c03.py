"""C03: copying, zeroing and linearly combining data slots act exactly, on every component of the slot, everywhere."""
from common import *
from absint import *
from funcs import bulk_memory
import itertools, os, sym

N = 3
VEC = re.compile(r"^(const )?std::vector<DataArray[1-4]D<double>")


def const_sizes(place, tcode):
    return None


class Env(object):
    def __init__(self, prog):
        self.prog = prog

    def interp(self):
        I = new_interp(self.prog)
        I.unroll = 12
        I.call_hook = self.hook
        I.field_init = self.finit
        return I

    def finit(self, place, tcode):
        if place[0] == "F" and place[2] == "$size" and place[1][0] == "F" and VEC.match(self.prog.fields.get(place[1][2], "")):
            return num(N)
        return None

    def val(self, st, p):
        return st.store.setdefault(("VAL", p), atom(("whole", p)))

    def hook(self, I, st, fr, n, key, qual, place, args):
        m = re.match(r"^DataArray([1-4])D<double>::(\w+|operator=)$", qual or "")
        if not m:
            return NotImplemented
        meth = m.group(2)
        if meth == "operator=" and n[0] == "ocall":
            dst = I.obj_place(args[0], st, fr)
            src = I.obj_place(args[1], st, fr)
            I.store_to(st, ("VAL", dst), self.val(st, src))
            return ("obj", dst)
        if place is None:
            return NotImplemented
        if meth in ("operator=", "Assign"):
            src = I.obj_place(args[0], st, fr)
            I.store_to(st, ("VAL", place), self.val(st, src))
            return ("obj", place)
        if meth == "Zero":
            I.store_to(st, ("VAL", place), ZERO)
            return ("opq", ("void",))
        if meth == "Scale":
            x = I.as_num(I.ev(args[0], st, fr))
            I.store_to(st, ("VAL", place), mul(self.val(st, place), x))
            return ("opq", ("void",))
        if meth == "AddProduct":
            src = I.obj_place(args[0], st, fr)
            x = I.as_num(I.ev(args[1], st, fr))
            I.store_to(st, ("VAL", place), add(self.val(st, place), mul(self.val(st, src), x)))
            return ("opq", ("void",))
        if meth == "IsAttached":
            return T if self.attached else F
        return NotImplemented

    attached = True


def slots_of(env, prog):
    """component -> [place of slot k], through the public accessors."""
    comp = {}
    en = {}
    for q, vals in prog.enums.items():
        pass
    for name, nm, extra in (("GetDataState", "node", "DataLocation_Node"), ("GetDataState", "redge", "DataLocation_REdge"), ("GetDataTracers", "tracers", None)):
        f = None
        for g in prog.byqual.get("GridPatch::" + name, []):
            if not g.const:
                f = g
        if f is None:
            raise AnalysisBroken("no GridPatch::%s" % name)
        out = []
        for k in range(N):
            I = env.interp()
            a = {f.params[0][1]: num(k)}
            if extra:
                a[f.params[1][1]] = num(enum_value(prog, extra))
            s, r = run_function(I, f, None, a)
            p = r[1] if isinstance(r, tuple) and r[0] in ("obj", "lref", "ptr") else None
            if p is None:
                raise AnalysisBroken("accessor %s(%d) not resolved: %s" % (name, k, r))
            out.append(p)
        if len(set(out)) != N:
            raise AnalysisBroken("accessor %s does not distinguish slots" % name)
        comp[nm] = out
    return comp


def enum_value(prog, name):
    if name in prog.enums:
        return prog.enums[name]
    for q, v in prog.enums.items():
        if q.split("::")[-1] == name:
            return v
    raise AnalysisBroken("enumerator %s not found" % name)


def run(c):
    prog = Program(sources())
    env = Env(prog)
    comp = slots_of(env, prog)
    S, TR = enum_value(prog, "DataType_State"), enum_value(prog, "DataType_Tracers")
    parts = {S: ["node", "redge"], TR: ["tracers"]}

    def init_state():
        st = State()
        for nm in comp:
            for p in comp[nm]:
                st.store[("VAL", p)] = atom(("whole", p))
        return st

    def slot(p):
        return atom(("whole", p))

    def execute(fn, args, coeffs=None):
        I = env.interp()
        st = init_state()
        if coeffs is not None:
            arr = ("P", fn.params[0][1])
            st.store[("EXT", arr, 0)] = num(len(coeffs))
            ch = None
            for i, v in enumerate(coeffs):
                I.store_to(st, ("E", arr, (num(i),)), v)
        s, r = run_function(I, fn, None, args, st)
        c.functions |= set(I.fnlog)
        return s, I

    def compare(rule, fn, s, want, what):
        if s is None:
            c.ob(rule, (fn.file, fn.line, fn.qual), False, what + ": always throws", rule + "|throws|" + what)
            return
        for nm in comp:
            for k in range(N):
                p = comp[nm][k]
                got = s.store.get(("VAL", p), slot(p))
                exp = want.get((nm, k), slot(p))
                ok = isinstance(got, Poly) and equal(got, exp)
                c.ob(rule, (fn.file, fn.line, fn.qual), ok, "%s: %s component of slot %d becomes %s" % (what, nm, k, show(exp) if ok else "%s instead of %s" % (show(got) if isinstance(got, Poly) else got, show(exp))),
                     "%s|%s|%s|%d" % (rule, what, nm, k))

    def method(name):
        f = prog.fn("GridPatch::" + name)
        if f is None:
            raise AnalysisBroken("GridPatch::%s missing" % name)
        return f

    f = method("CopyData")
    for t in parts:
        for a in range(N):
            for b in range(N):
                pn = [p[1] for p in f.params]
                s, I = execute(f, {pn[0]: num(a), pn[1]: num(b), pn[2]: num(t)})
                compare("copy", f, s, {(nm, b): slot(comp[nm][a]) for nm in parts[t]}, "copy slot %d to %d (type %d)" % (a, b, t))
    f = method("ZeroData")
    for t in parts:
        for a in range(N):
            pn = [p[1] for p in f.params]
            s, I = execute(f, {pn[0]: num(a), pn[1]: num(t)})
            compare("zero", f, s, {(nm, a): ZERO for nm in parts[t]}, "zero slot %d (type %d)" % (a, t))
    f = method("LinearCombineData")
    pn = [p[1] for p in f.params]
    for t in parts:
        for size in range(1, N + 1):
            for d in range(size):
                # every coefficient either zero or an arbitrary non-zero number
                for zs in itertools.product((0, 1), repeat=size):
                    cs = [atom(("coef", i)) if z else ZERO for i, z in enumerate(zs)]
                    I = env.interp()
                    st = init_state()
                    for i, z in enumerate(zs):
                        if z:
                            st.assume(cnot(eq0(cs[i])))
                    arr = ("P", pn[0])
                    st.store[("EXT", arr, 0)] = num(size)
                    for i, v in enumerate(cs):
                        I.store_to(st, ("E", arr, (num(i),)), v)
                    s, r = run_function(I, f, None, {pn[1]: num(d), pn[2]: num(t)}, st)
                    c.functions |= set(I.fnlog)
                    want = {}
                    for nm in parts[t]:
                        e = ZERO
                        for i in range(size):
                            e = add(e, mul(cs[i], slot(comp[nm][i])))
                        want[(nm, d)] = e
                    compare("combine", f, s, want, "combine %s of %d slots into %d (type %d)" % ("".join("x" if z else "0" for z in zs), size, d, t))
    # unattached tracers: nothing may happen
    env.attached = False
    for t in (TR,):
        arr = ("P", pn[0])
        I = env.interp()
        st = init_state()
        st.store[("EXT", arr, 0)] = num(2)
        for i in range(2):
            I.store_to(st, ("E", arr, (num(i),)), atom(("coef", i)))
        s, r = run_function(I, f, None, {pn[1]: num(1), pn[2]: num(t)}, st)
        compare("combine", f, s, {}, "combine without tracers")
    env.attached = True
    # rejected indices
    for name, args in (("CopyData", (N, 0, S)), ("CopyData", (0, N, S)), ("CopyData", (-1, 0, S)), ("CopyData", (0, -1, S)), ("CopyData", (N, 0, TR)), ("CopyData", (0, N, TR)),
                       ("ZeroData", (N, S)), ("ZeroData", (-1, S)), ("ZeroData", (N, TR))):
        f = method(name)
        s, I = execute(f, {p[1]: num(v) for p, v in zip(f.params, args)})
        c.ob("reject", (f.file, f.line, f.qual), s is None, "%s%r is refused" % (name, args), "reject|%s|%r" % (name, args))
    f = method("LinearCombineData")
    for d, size, t in ((N, N, S), (N, N + 1, S), (0, N + 1, S), (2, 2, S), (0, N + 1, TR), (2, 2, TR)):
        s, I = execute(f, {pn[1]: num(d), pn[2]: num(t)}, [ONE] * size)
        c.ob("reject", (f.file, f.line, f.qual), s is None, "combination of %d slots into slot %d is refused" % (size, d), "reject|Combine|%d|%d|%d" % (d, size, t))
    grid_forwards(c, prog)
    array_ops(c, prog)
    for r in ("copy", "zero", "combine", "reject", "every-patch", "array-op"):
        c.need(r)
    return c.finish("proof", "The slot operations of a patch are interpreted on symbolic whole-array values for every pair of slots, data type and zero/non-zero pattern of the coefficients; "
                    "the grid-level operations are shown to forward their arguments to every active patch; the array primitives they are built from are interpreted element-wise at an arbitrary index.",
                    {"copy": "destination equals source, all other slots unchanged", "zero": "slot becomes zero", "combine": "destination equals the weighted sum of the old slots (old destination included)",
                     "reject": "out-of-range slots are refused", "every-patch": "grid operation applies the same patch operation to every active patch", "array-op": "array primitive semantics at an arbitrary element"})


def grid_forwards(c, prog):
    from absint import flatten
    for name in ("CopyData", "LinearCombineData", "ZeroData"):
        f = prog.fn("Grid::" + name)
        I = new_interp(prog)
        hits = []

        def hook(I, st, fr, n, key, qual, place, args):
            if qual == "GridPatch::" + name:
                vals = []
                for a in args:
                    v = I.ev(a, st, fr)
                    vals.append(v)
                st.event("patchop", place, tuple(vals), I.where(n))
                return ("opq", ("void",))
            return NotImplemented
        I.call_hook = hook
        s, r = run_function(I, f)
        c.functions |= set(I.fnlog)
        evs = [x for x in flatten(trace_list(s.trace)) if x[0][0] == "patchop"]
        ok = False
        why = "%d patch operations" % len(evs)
        if len(evs) == 1:
            (e, cond, loops) = evs[0]
            if cond == T and len(loops) == 1:
                lid, L = loops[0]
                why = "loop count %s, args %s" % (show(L.count) if isinstance(getattr(L, "count", None), Poly) else L, e[2])
                ok, why = all_patches(I, s, e, loops[0], f, prog)
            else:
                why = "conditional or not in a loop over the patches"
        c.ob("every-patch", (f.file, f.line, f.qual), ok, "Grid::%s applies to every active patch with unchanged arguments: %s" % (name, why), "every-patch|%s" % name)


def all_patches(I, s, e, loop, f, prog):
    place, args = e[1], e[2]
    lv, cnt = loop

    def find(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "E" and isinstance(x[2], tuple) and len(x[2]) == 1:
                return x
            for y in x:
                r = find(y)
                if r:
                    return r
        return None
    el = find(place)
    if not el:
        return False, "patch %s is not an element of the patch list" % (place,)
    size = I.load(s, ("F", el[1], "$size"), "i")
    if not (isinstance(cnt, Poly) and equal(cnt, size)):
        return False, "loop runs %s times, not over the whole patch list" % (show(cnt) if isinstance(cnt, Poly) else cnt)
    if not permutes(el[2][0], lv, cnt):
        return False, "patch index %s" % show(el[2][0])
    for a, prm in zip(args, f.params):
        want = atom(("in", ("P", prm[1])))
        if isinstance(a, Poly):
            if not equal(a, want):
                return False, "argument %s differs" % prm[1]
        elif isinstance(a, tuple) and a[0] == "obj":
            if a[1] != ("P", prm[1]) and a[1] != ("D", ("P", prm[1])):
                return False, "argument %s differs: %s" % (prm[1], a)
    return True, "list %s" % (el[1][2] if el[1][0] == "F" else el[1],)


def permutes(i, lv, cnt):
    """does index i run through 0..cnt-1 as the loop counter does (in either direction)."""
    l = atom(lv)
    return equal(i, l) or equal(i, sub(sub(cnt, ONE), l))


def array_ops(c, prog):
    for rank in range(1, 5):
        cls = "DataArray%dD<double>" % rank
        this, other = ("this",), ("other",)

        ptrs = [q for q, t, ln, ini in prog.classes[cls]["fields"] if t.endswith("*")]
        sizes = [q for q, t, ln, ini in prog.classes[cls]["fields"] if "long" in t]
        owns_f = [q for q, t, ln, ini in prog.classes[cls]["fields"] if t == "bool"]
        if len(ptrs) != 1 or len(sizes) != 1 or len(owns_f) != 1:
            raise AnalysisBroken("fields of %s not understood" % cls)

        def mk(attached, oattached, eqsize, owns):
            I = new_interp(prog)
            I.raw_arrays = True
            log = []

            def hook(I, st, fr, n, key, qual, place, args):
                return bulk_memory(I, st, fr, qual, args, 8, lambda *e: log.append(e))
            I.call_hook = hook
            I.dynclass = lambda p: cls if p in (this, other) else None
            st = State()
            for o, att in ((this, attached), (other, oattached)):
                fp = ("F", o, ptrs[0])
                st.store[fp] = ("ptr", ("G", "heap_" + o[0])) if att else ("null",)
                st.store[("F", o, owns_f[0])] = T if owns else F
                for d in range(rank):
                    sz = atom(("size", d)) if (eqsize or o == this) else atom(("osize", d))
                    I.store_to(st, ("E", ("F", o, sizes[0]), (num(d),)), sz)
                    if rank == 1:
                        st.store[("F", o, sizes[0])] = sz
                    st.assume(lt0(neg(sz)))
            return I, st, log
        tot = ONE
        for d in range(rank):
            tot = mul(tot, atom(("size", d)))
        heap = lambda o: ("G", "heap_" + o[0])
        at = atom(("anyindex",))

        def elem(I, st, arr):
            st2 = st.fork()
            st2.assume(cnot(lt0(at)))
            st2.assume(lt0(sub(at, tot)))
            return I.load_elem(st2, ("E", arr, (at,)), "f")
        for meth, fn in (("Scale", None), ("AddProduct", None), ("Zero", None), ("Assign", None), ("operator=", None)):
            fs = [f for f in prog.byqual.get(cls + "::" + meth, [])]
            for f in fs:
                if meth == "operator=" and "DataArray" not in f.params[0][2]:
                    continue
                I, st, log = mk(True, True, True, False)
                pl = {}
                argd = {}
                for pid, nm, t in f.params:
                    if "DataArray" in t:
                        argd[nm] = ("PLACE", other)
                    else:
                        argd[nm] = atom(("factor",))
                x0 = I.load_elem(st, ("E", heap(this), (at,)), "f")
                y0 = I.load_elem(st, ("E", heap(other), (at,)), "f")
                s, r = run_function(I, f, this, argd, st)
                c.functions |= set(I.fnlog)
                w = (f.file, f.line, f.qual)
                if s is None:
                    c.ob("array-op", w, False, "%s::%s always throws" % (cls, meth), "array-op|%s|%s|throws" % (cls, meth))
                    continue
                got = elem(I, s, heap(this))
                goty = elem(I, s, heap(other))
                want = {"Scale": mul(x0, atom(("factor",))), "AddProduct": add(x0, mul(y0, atom(("factor",)))), "Zero": ZERO, "Assign": y0, "operator=": y0}[meth]
                ok = isinstance(got, Poly) and equal(got, want)
                if os.environ.get("DBG") and not ok:
                    print(got.t, [sym._terms[a] for m in got.t for a,_ in m], want.t)
                if not ok and isinstance(got, Poly) and any(k in show(got) for k in ("sel", "hav", "carry")):
                    ok = None
                c.ob("array-op", w, ok, "%s::%s at an arbitrary element: %s" % (cls, meth, show(got) if isinstance(got, Poly) else got), "array-op|%s|%s" % (cls, meth))
                c.ob("array-op", w, equal(goty, y0), "%s::%s leaves its operand unchanged" % (cls, meth), "array-op|%s|%s|operand" % (cls, meth))
                for l in log:
                    q, rem = l[3], sub(l[3], mul(num(8), tot))
                    c.ob("array-op", w, is_zero(rem), "%s::%s transfers %s bytes" % (cls, meth, show(l[3])), "array-op|%s|%s|bytes" % (cls, meth))
            if not fs and rank == 4:
                raise AnalysisBroken("%s::%s missing" % (cls, meth))
        # row-major element address
        for f in prog.byqual.get(cls + "::operator()", []):
            if len(f.params) != rank or any("index_array" in p[2] for p in f.params):
                continue
            I, st, log = mk(True, True, True, False)
            s, r = run_function(I, f, this, {p[1]: atom(("ix", k)) for k, p in enumerate(f.params)}, st)
            off = ZERO
            for k in range(rank):
                t = atom(("ix", k))
                for d in range(k + 1, rank):
                    t = mul(t, atom(("size", d)))
                off = add(off, t)
            p = r[1] if isinstance(r, tuple) and len(r) > 1 else None
            if not isinstance(r, tuple) and isinstance(r, Poly):
                # value of the element
                want = I.load_elem(st, ("E", heap(this), (off,)), "f")
                ok = equal(r, want)
            else:
                ok = isinstance(p, tuple) and p[0] == "E" and p[1] == heap(this) and equal(p[2][0], off)
            c.ob("array-op", (f.file, f.line, f.qual), ok if ok or r is not None else None, "%s element address is row-major (%s)" % (cls, r if not isinstance(r, Poly) else show(r)), "array-op|%s|address" % cls)
