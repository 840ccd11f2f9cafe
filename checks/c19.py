"""C19: arrays address, own, copy and release exactly their elements; containers tile their memory with their members."""
import re
from common import *
from absint import *
from funcs import bulk_memory
from ident import nval, ncond, Undefined

SIZES = (2, 3, 4, 5)
BYTES = {"double": 8, "int": 4, "char": 1}


def run(c):
    prog = Program(["src/base/DataContainer.cpp"] + [os.path.join(HERE, "tool", "probe.cpp")])
    W = lambda f: (f.file, f.line, f.qual)

    class Arr(object):
        """one instantiated array class: its fields and methods."""

        def __init__(self, rank, T_):
            self.rank, self.T = rank, T_
            self.cls = ("DataArray%dD<%s>" % (rank, T_)) if rank else "DataStruct<%s>" % T_
            ref = ("DataArray%dD<double>" % rank) if rank else "DataStruct<double>"
            if ref not in prog.classes:
                raise AnalysisBroken("%s not found" % ref)
            fl = [(q.replace(ref, self.cls), t.replace("double", T_)) for q, t, ln, ini in prog.classes[ref]["fields"]]
            if self.cls not in prog.classes:
                prog.classes[self.cls] = dict(prog.classes[ref], qual=self.cls, fields=[(q.replace(ref, self.cls), t.replace("double", T_), ln, ini) for q, t, ln, ini in prog.classes[ref]["fields"]])
                prog.fields.update(fl)
            pick = lambda f: [q for q, t in fl if f(t)]
            one = lambda l, w: l[0] if len(l) == 1 else broken(w)

            def broken(w):
                raise AnalysisBroken("%s of %s not recognised" % (w, self.cls))
            self.ptr = one(pick(lambda t: t.endswith("*")), "data pointer")
            self.own = one(pick(lambda t: t == "bool"), "ownership flag")
            if rank:
                self.size = one(pick(lambda t: "long" in t), "sizes")
                self.ty = one(pick(lambda t: t == "DataType"), "type")
                self.loc = one(pick(lambda t: t == "DataLocation"), "location")
            if not prog.byqual.get(self.cls + "::Detach"):
                raise AnalysisBroken("%s not instantiated" % self.cls)

        def m(self, name, pred=None):
            l = [f for f in prog.byqual.get(self.cls + "::" + name, []) if f.body is not None and (pred is None or pred(f))]
            return l

        def sizeplace(self, o, d):
            return ("F", o, self.size) if self.rank == 1 else ("E", ("F", o, self.size), (num(d),))

    class World(object):
        """interpreter with a heap: which blocks were obtained, how large, zeroed, released how often and how."""

        def __init__(self, A, objs):
            self.A = A
            self.I = I = new_interp(prog)
            I.raw_arrays = True
            I.unroll = 400
            I.dynclass = lambda p: A.cls if p in objs else None
            self.blocks = {}
            self.log = []
            I.call_hook = self.hook
            self.st = State()

        def hook(self, I, st, fr, n, key, qual, place, args):
            nm = (qual or "").split("::")[-1]
            if nm in ("malloc", "calloc") and place is None:
                vs = [I.as_num(I.ev(a, st, fr)) for a in args]
                b = ("G", "block%d" % len(self.blocks))
                sz = vs[0] if nm == "malloc" else mul(vs[0], vs[1])
                self.blocks[b] = [sz, nm]
                if nm == "calloc":
                    I.set_chain(st, b, Chain("fill", None, ZERO))
                return ("ptr", b)
            if nm == "free" and len(args) == 1:
                st.event("release", I.ev(args[0], st, fr), "free")
                return ("opq", ("void",))
            return bulk_memory(I, st, fr, qual, args, BYTES[self.A.T], st.event)

        def put(self, o, kind, sizes, ty=0, loc=0, block=None):
            """object in one of its states: empty, sized, own, foreign."""
            A, st = self.A, self.st
            if A.rank:
                for d in range(A.rank):
                    self.I.store_to(st, A.sizeplace(o, d), num(sizes[d] if kind != "empty" else 0))
                st.store[("F", o, A.ty)] = num(ty)
                st.store[("F", o, A.loc)] = num(loc)
            st.store[("F", o, A.own)] = F if kind == "foreign" else T
            st.store[("F", o, A.ptr)] = ("ptr", block) if kind in ("own", "foreign") else ("null",)

        def call(self, f, this, vals=()):
            args = {}
            for (pid, nm, t), v in zip(f.params, vals):
                args[nm] = v
            st = self.st.fork()
            st.trace = None
            self.I.throws[:] = []
            s, r = run_function(self.I, f, this, args, st)
            c.functions.update(self.I.fnlog)
            thrown = [ncond(t[0], {}) for t in self.I.throws]
            if s is None or any(thrown):
                return None, None
            return s, r

        def after(self, s, o):
            """-> pointer ('null'|block), owns, sizes, type, location."""
            A, I = self.A, self.I
            p = I.load(s, ("F", o, A.ptr), "p")
            p = None if p[0] == "null" else p[1] if p[0] == "ptr" else p
            if isinstance(p, tuple) and p[0] == "E" and all(is_zero(i) for i in p[2]):
                p = p[1]
            own = ncond(I.load(s, ("F", o, A.own), "b"), {})
            if not A.rank:
                return p, own, (), 0, 0
            n = lambda v: int(nval(v, {}))
            return p, own, tuple(n(I.load(s, A.sizeplace(o, d), "i")) for d in range(A.rank)), n(I.load(s, ("F", o, A.ty), "i")), n(I.load(s, ("F", o, A.loc), "i"))

        def released(self, s):
            out = []
            for e, cd, lp in flatten(trace_list(s.trace)):
                if e[0] not in ("release", "delete") or not ncond(cd, {}):
                    continue
                v = e[1]
                if v[0] == "null":
                    continue
                v = v[1] if v[0] == "ptr" else v
                if v[0] == "E" and all(is_zero(i) for i in v[2]):
                    v = v[1]
                out.append((v, "free" if e[0] == "release" else "delete"))
            return out

        def elem(self, s, b, i):
            return self.I.load_elem(s, ("E", b, (i,)), "f" if self.A.T == "double" else "i")

        def each(self, s, n, holds):
            """holds at an arbitrary index, or at each of the n there are."""
            return holds(atom(("any",))) or all(holds(num(i)) for i in range(n))

        def zeroed(self, s, b, n):
            z = lambda v: isinstance(v, Poly) and is_zero(v)
            return self.each(s, n, lambda i: z(self.elem(s, b, i)))

        def same(self, s, a, b, n):
            e = lambda x, y: isinstance(x, Poly) and isinstance(y, Poly) and equal(x, y)
            return self.each(s, n, lambda i: e(self.elem(s, a, i), self.elem(s, b, i)))

        def transfers(self, s, kind):
            return [e for e, cd, lp in flatten(trace_list(s.trace)) if e[0] == kind and ncond(cd, {})]

    THIS, OTHER = ("this",), ("other",)
    FOREIGN, OLD, SRC = ("G", "foreign"), ("G", "old"), ("G", "source")
    up8 = lambda n: (n + 7) // 8 * 8

    def prod(l):
        r = 1
        for x in l:
            r *= x
        return r

    ranks = [(r, "double") for r in range(0, 5)] + [(r, t) for t in ("int", "char") for r in range(0, 5)]
    for rank, T_ in ranks:
        A = Arr(rank, T_)
        nb = lambda sz: up8(prod(sz) * BYTES[T_])
        sz = SIZES[:rank]
        if T_ == "char":
            sz = (3, 1, 3, 1)[:rank]

        # the same number of elements in another shape
        swaps = []
        for a in range(rank):
            for b in range(a):
                t = list(sz)
                t[a], t[b] = t[b], t[a]
                if tuple(t) != tuple(sz):
                    swaps.append(tuple(t))

        def world(kind, sizes=None, **kw):
            w = World(A, (THIS, OTHER))
            blk = {"own": OLD, "foreign": FOREIGN}.get(kind)
            if kind in ("own", "foreign"):
                w.blocks[blk] = [num(nb(sizes or sz)), "malloc" if kind == "own" else "given"]
            w.put(THIS, kind, sizes or sz, block=blk, **kw)
            return w

        def O(f, ok, what, key):
            c.ob("own" if "memory" in key else "state", W(f), ok, "%s: %s" % (A.cls, what), "%s|%s|%s" % (A.cls, f.name, key))

        def disc(w, s, f, what, keep=(), tag=""):
            """memory discipline: what this no longer points to of its own is released once, nothing else is; own memory is large enough."""
            p, own, sizes, ty, loc = w.after(s, THIS)
            rel = w.released(s)
            mine = {b for b, (n_, how) in w.blocks.items() if how in ("malloc", "calloc") and b not in keep}
            gone = [b for b, how in rel]
            O(f, all(b in mine for b in gone), "%s: only memory of its own is released" % what, "memory foreign" + tag)
            O(f, len(set(gone)) == len(gone), "%s: no memory is released twice" % what, "memory twice" + tag)
            O(f, all(how == "free" for b, how in rel), "%s: memory from malloc is released with free" % what, "memory mismatch")
            left = mine - set(gone)
            want = {p} if p is not None and own else set()
            O(f, left == want, "%s: memory of its own is kept or released, never both or neither" % what, "memory leak" + tag)
            if p is not None and own and p in w.blocks:
                O(f, int(nval(w.blocks[p][0], {})) >= nb(sizes), "%s: own memory holds all elements" % what, "memory small" + tag)
            if p is None:
                O(f, own, "%s: without memory it is free to obtain some" % what, "memory stuck" + tag)

        try:
            # ---- release and attachment
            for name in ("Detach", "Deallocate", "~" + A.cls.split("<")[0]):
                for f in A.m(name):
                    for kind in ("empty", "sized", "own", "foreign"):
                        w = world(kind)
                        s, r = w.call(f, THIS)
                        if name == "Deallocate" and kind == "foreign":
                            O(f, s is None, "Deallocate refuses memory it does not own", "refuse foreign")
                            continue
                        if s is None:
                            O(f, False, "%s is refused (%s)" % (name, kind), "accept " + kind)
                            continue
                        p, own, ss, ty, loc = w.after(s, THIS)
                        O(f, p is None, "%s (%s): nothing attached afterwards" % (name, kind), "detached")
                        disc(w, s, f, "%s (%s)" % (name, kind), tag=kind)
            for f in A.m("AttachToData"):
                for kind in ("empty", "sized", "own", "foreign"):
                    w = world(kind)
                    new = ("G", "given")
                    s, r = w.call(f, THIS, [("ptr", new)])
                    if kind in ("own", "foreign"):
                        O(f, s is None, "AttachToData is refused when memory is attached (%s)" % kind, "refuse " + kind)
                        continue
                    if s is None:
                        O(f, False, "AttachToData (%s) is accepted" % kind, "accept " + kind)
                        continue
                    p, own, ss, ty, loc = w.after(s, THIS)
                    O(f, p == new and own is False and (kind == "empty" or ss == sz), "AttachToData uses the given memory, does not own it and keeps the sizes", "attach")
            for f in A.m("IsAttached"):
                for kind in ("empty", "sized", "own", "foreign"):
                    w = world(kind)
                    s, r = w.call(f, THIS)
                    O(f, s is not None and ncond(r, {}) == (kind in ("own", "foreign")), "IsAttached (%s)" % kind, "attached " + kind)
            # ---- allocation
            for f in A.m("Allocate"):
                for kind in ("empty", "sized", "own", "foreign"):
                    asks = [tuple(sz), (0,) * rank] + [tuple(sz[e] + (7 if e == d else 0) for e in range(rank)) for d in range(rank)] + [tuple(0 if e == d else sz[e] for e in range(rank)) for d in range(rank) if rank > 1] + swaps
                    for ask in dict.fromkeys(asks):
                        w = world(kind)
                        s, r = w.call(f, THIS, [num(v) for v in ask])
                        had = sz if kind != "empty" else (0,) * rank
                        eff = tuple(a or h for a, h in zip(ask, had))
                        if kind == "foreign" or 0 in eff:
                            O(f, s is None, "Allocate%s is refused (%s)" % (ask, kind), "refuse")
                            continue
                        if s is None:
                            O(f, False, "Allocate%s is accepted (%s)" % (ask, kind), "accept")
                            continue
                        p, own, ss, ty, loc = w.after(s, THIS)
                        O(f, p is not None and own and ss == eff, "Allocate%s (%s): own memory of the sizes asked for" % (ask, kind), "allocate")
                        O(f, w.zeroed(s, p, prod(eff)), "Allocate%s (%s): all elements are zero" % (ask, kind), "zero")
                        e = w.transfers(s, "memset")
                        O(f, all(prod(eff) * BYTES[T_] <= nval(x[3], {}) <= nb(eff) for x in e), "Allocate%s (%s): zeroes the array and not beyond it" % (ask, kind), "zero size")
                        disc(w, s, f, "Allocate%s (%s)" % (ask, kind), tag=kind)
            # ---- sizes
            for f in A.m("GetByteSize"):
                for t in ([tuple(sz), (1,) * rank, (3,) * rank, (7, 5, 3, 1)[:rank], (2, 2, 2, 3)[:rank]] if rank else [()]):
                    w = world("sized", t)
                    s, r = w.call(f, THIS)
                    O(f, s is not None and int(nval(r, {})) == nb(t), "GetByteSize of %s: all elements, rounded up to a word" % (t,), "bytesize")
            for f in A.m("GetTotalSize"):
                w = world("own")
                s, r = w.call(f, THIS)
                O(f, s is not None and int(nval(r, {})) == (prod(sz) if rank else 1), "GetTotalSize is the number of elements", "total")
            if rank:
                for d, nm in enumerate(("GetRows", "GetColumns", "GetSubColumns")[:rank]):
                    for f in A.m(nm):
                        t = (11, 12, 13, 14)[:rank]
                        w = world("sized", t)
                        s, r = w.call(f, THIS)
                        O(f, s is not None and int(nval(r, {})) == t[d], "%s is the size of dimension %d" % (nm, d), "get")
                for f in A.m("GetSize"):
                    for d in range(rank):
                        t = (11, 12, 13, 14)[:rank]
                        w = world("sized", t)
                        s, r = w.call(f, THIS, [num(d)])
                        O(f, s is not None and int(nval(r, {})) == t[d], "GetSize(%d) is the size of dimension %d" % (d, d), "get%d" % d)
                for f in A.m("SetSize"):
                    for kind in ("empty", "sized", "own", "foreign"):
                        w = world(kind)
                        t = (21, 22, 23, 24)[:rank]
                        s, r = w.call(f, THIS, [num(v) for v in t])
                        if kind in ("own", "foreign"):
                            O(f, s is None, "SetSize is refused when memory is attached (%s)" % kind, "refuse " + kind)
                        else:
                            O(f, s is not None and w.after(s, THIS)[2] == t and w.after(s, THIS)[0] is None, "SetSize (%s) sets every size and attaches nothing" % kind, "setsize")
                for nm, k in (("DataType", 3), ("DataLocation", 4)):
                    for f in A.m("Set" + nm):
                        w = world("own")
                        pl = ("G", "arg")
                        w.st.store[pl] = num(1)
                        s, r = w.call(f, THIS, [("PLACE", pl) if is_ref(f.params[0][2]) else num(1)])
                        a = w.after(s, THIS) if s is not None else None
                        O(f, a is not None and a[k] == 1 and a[7 - k] == 0, "Set%s sets it alone" % nm, "set")
                    for f in A.m("Get" + nm):
                        w = world("own", ty=1 if k == 3 else 2, loc=1 if k == 4 else 2)
                        s, r = w.call(f, THIS)
                        O(f, s is not None and int(nval(r, {})) == 1, "Get%s" % nm, "get")
            # ---- construction
            for f in A.m(A.cls.split("<")[0]):
                ps = f.params
                if len(ps) == 1 and "Data" in ps[0][2] and "&" in ps[0][2]:
                    continue
                ns = [p for p in ps if "long" in p[2]]
                if ns:
                    for alloc in (True, False):
                        w = World(A, (THIS, OTHER))
                        vals = [num(sz[i]) for i in range(rank)] + [num(1), num(2), T if alloc else F]
                        s, r = w.call(f, THIS, vals)
                        if s is None:
                            O(f, False, "construction with sizes is accepted", "construct")
                            continue
                        p, own, ss, ty, loc = w.after(s, THIS)
                        O(f, ss == sz and (ty, loc) == (1, 2) and own and (p is not None) == alloc, "construction with sizes: sizes, type, location and memory as asked (%s)" % alloc, "construct")
                        if alloc:
                            O(f, w.zeroed(s, p, prod(sz)), "construction with sizes: all elements are zero", "construct zero")
                        disc(w, s, f, "construction")
                elif len(ps) in (0, 2):
                    w = World(A, (THIS, OTHER))
                    s, r = w.call(f, THIS, [num(1), num(2)][:len(ps)])
                    if s is None:
                        O(f, False, "default construction is accepted", "construct")
                        continue
                    p, own, ss, ty, loc = w.after(s, THIS)
                    O(f, p is None and own and ss == (0,) * rank and (not ps or (ty, loc) == (1, 2)), "default construction: empty", "construct")
            # ---- copies
            copies = [(f, True) for f in A.m(A.cls.split("<")[0], lambda f: len(f.params) == 1 and A.cls in f.params[0][2])]
            copies += [(f, False) for nm in ("Assign", "operator=") for f in A.m(nm, lambda f: A.cls in f.params[0][2])]
            for f, ctor in copies:
                other = [tuple(sz[e] + (4 if e == d else 0) for e in range(rank)) for d in range(rank)] + swaps
                for kind in (("none",) if ctor else ("empty", "sized", "own", "foreign")):
                    for src in ("empty", "sized", "own", "foreign"):
                        for ss, tl in [(tuple(sz), (1, 2))] + [(o, (1, 2)) for o in other if src != "empty" and kind in ("own", "foreign", "sized")] + ([(tuple(sz), (0, 2)), (tuple(sz), (1, 0))] if kind == "foreign" and rank else []):
                            w = World(A, (THIS, OTHER)) if ctor else world(kind, ty=1, loc=2)
                            w.blocks[SRC] = [num(nb(ss)), "malloc"]
                            w.put(OTHER, src, ss, ty=tl[0], loc=tl[1], block=SRC)
                            before = w.after(w.st, OTHER)
                            s, r = w.call(f, THIS, [("PLACE", OTHER)])
                            what = "copy of %s %s into %s" % (src, ss, kind)
                            att = src in ("own", "foreign")
                            refuse = (kind in ("own", "foreign") and not att) or (kind == "foreign" and (ss != tuple(sz) or (rank and tl != (1, 2))))
                            if rank == 0 and not att:
                                refuse = kind in ("own", "foreign") and not att
                            if refuse:
                                O(f, s is None, "%s (types %s) is refused" % (what, tl), "copy refuse")
                                continue
                            if s is None:
                                O(f, False, "%s is accepted" % what, "copy accept")
                                continue
                            p, own, tsz, ty, loc = w.after(s, THIS)
                            O(f, w.after(s, OTHER) == before, "%s: source unchanged" % what, "copy source")
                            eff = ss if src != "empty" else (0,) * rank
                            O(f, tsz == eff and (not rank or (ty, loc) == tl), "%s: sizes, type and location of the source" % what, "copy sizes")
                            O(f, (p is not None) == att and p != SRC, "%s: attached when the source is, to memory other than the source's" % what, "copy attached")
                            if att and p is not None:
                                O(f, own == (kind != "foreign") and (kind != "foreign" or p == FOREIGN), "%s: own memory, or the given memory" % what, "copy memory kind")
                                same = w.same(s, p, SRC, prod(eff))
                                if not rank and not same:
                                    x, y = (w.I.load(s, b, "f" if T_ == "double" else "i") for b in (p, SRC))
                                    same = isinstance(x, Poly) and isinstance(y, Poly) and equal(x, y)
                                O(f, same, "%s: contents of the source" % what, "copy contents")
                                e = w.transfers(s, "memcpy")
                                O(f, all((prod(eff) if rank else 1) * BYTES[T_] <= nval(t[3], {}) <= nb(eff) for t in e), "%s: copies the array and not beyond it" % what, "copy size")
                            disc(w, s, f, what, keep=(SRC,), tag="copy")
                if not ctor:
                    for kind in ("own", "foreign"):
                        w = world(kind, ty=1, loc=2)
                        blk = OLD if kind == "own" else FOREIGN
                        s, r = w.call(f, THIS, [("PLACE", THIS)])
                        if s is None:
                            O(f, False, "an array may be assigned to itself", "self")
                            continue
                        p = w.after(s, THIS)[0]
                        e = lambda i: equal(w.elem(s, p, i), w.elem(w.st, blk, i))
                        O(f, p is not None and w.each(s, prod(sz), e) and w.after(s, THIS)[2] == tuple(sz), "assigning an array to itself changes nothing (%s)" % kind, "self")
                        disc(w, s, f, "self assignment", tag="self")
            # ---- refusals of element-wise operations
            for name in ("Zero", "Scale", "AddProduct"):
                for f in A.m(name):
                    for kind in ("empty", "sized"):
                        w = world(kind)
                        w.blocks[SRC] = [num(nb(sz)), "malloc"]
                        w.put(OTHER, "own", sz, block=SRC)
                        vals = [("PLACE", OTHER) if A.cls in p[2] else atom(("factor",)) for p in f.params]
                        s, r = w.call(f, THIS, vals)
                        O(f, s is None, "%s without memory is refused" % name, "refuse")
                    if name == "AddProduct":
                        for src, ss in [("sized", tuple(sz))] + [("own", tuple(sz[e] + (4 if e == d else 0) for e in range(rank))) for d in range(rank)] + [("own", t) for t in swaps]:
                            w = world("own")
                            w.blocks[SRC] = [num(nb(ss)), "malloc"]
                            w.put(OTHER, src, ss, block=SRC)
                            vals = [("PLACE", OTHER) if A.cls in p[2] else atom(("factor",)) for p in f.params]
                            s, r = w.call(f, THIS, vals)
                            O(f, s is None, "AddProduct of %s %s is refused" % (src, ss), "refuse mismatch")
        except Undefined as x:
            # a size the array does not have, or one its construction leaves unset, is read: a defect; anything else is beyond this analysis
            own = A.rank and re.search(r"%s(\[\d+\])?$" % re.escape(A.size.split("::")[-1]), str(x)) is not None
            c.ob("state", (A.cls, 0, A.cls), False if own else None, "%s: %s is used where it is not set" % (A.cls, x), "%s|unset" % A.cls)

        # ---- element addresses: every accessor, symbolic sizes and indices
        if rank and T_ == "double":
            for nix in range(1, rank + 1):
                off = ZERO
                for k in range(nix):
                    t = atom(("ix", k))
                    for d in range(k + 1, rank):
                        t = mul(t, atom(("size", d)))
                    off = add(off, t)
                for f in A.m("operator()"):
                    packed = len(f.params) == 1 and "index_array" in f.params[0][2]
                    cnt = int(f.params[0][2].rsplit(",", 1)[1].split(">")[0]) if packed else len(f.params)
                    if cnt != nix:
                        continue
                    w = World(A, (THIS,))
                    w.put(THIS, "own", sz, block=OLD)
                    for d in range(rank):
                        w.I.store_to(w.st, A.sizeplace(THIS, d), atom(("size", d)))
                    if packed:
                        ia = ("G", "indices")
                        fq = [q for k in prog.classes for q, t, ln, ini in prog.classes[k]["fields"] if k.startswith("index_array<long, %d>" % cnt)]
                        fq = fq[0] if fq else "index_array<long, %d>::ix_" % cnt
                        for k in range(cnt):
                            w.I.store_to(w.st, ("E", ("F", ia, fq), (num(k),)), atom(("ix", k)))
                        args = [("PLACE", ia)]
                    else:
                        args = [atom(("ix", k)) for k in range(cnt)]
                    s, r = w.call(f, THIS, args)
                    addr(c, A, f, w, s, r, OLD, off, "%s of %d indices" % ("packed access" if packed else "access", nix))
            # ---- subscripts: a[i], a[i][j], ... as chains of one-index steps
            if rank > 1:
                for const in (False, True):
                    w = World(A, (THIS,))
                    w.put(THIS, "own", sz, block=OLD)
                    for d in range(rank):
                        w.I.store_to(w.st, A.sizeplace(THIS, d), atom(("size", d)))
                    # leading rank-1 subscripts give the start of a contiguous row
                    off = ZERO
                    for k in range(rank - 1):
                        t = atom(("ix", k))
                        for d in range(k + 1, rank):
                            t = mul(t, atom(("size", d)))
                        off = add(off, t)
                    f = [g for g in A.m("operator[]") if bool(g.const) == const]
                    if len(f) != 1:
                        c.ob("address", (A.cls, 0, A.cls), None, "subscript of %s" % A.cls)
                        continue
                    cur, first, s = THIS, f[0], w.st
                    for k in range(rank - 1):
                        if k:
                            cn = "Subscript<%s%s, %d, %d>" % ("const " if const else "", A.cls, rank - k, rank)
                            f = prog.byqual.get(cn + "::operator[]", [])
                            if len(f) != 1:
                                raise AnalysisBroken("%s::operator[] not found" % cn)
                        w.I.throws[:] = []
                        s, r = run_function(w.I, f[0], cur, {f[0].params[0][1]: atom(("ix", k))}, s)
                        c.functions.update(w.I.fnlog)
                        if s is None or not isinstance(r, tuple):
                            s = None
                            break
                        cur = w.I.temp(s, r) if r[0] not in ("obj", "ptr", "lref") else r[1]
                    if s is not None:
                        cn = "Subscript<%s%s, 1, %d>" % ("const " if const else "", A.cls, rank)
                        conv = [g for k_ in prog.byqual for g in prog.byqual[k_] if k_.startswith(cn + "::operator ")]
                        if len(conv) != 1:
                            raise AnalysisBroken("conversion of %s not found" % cn)
                        s, r = run_function(w.I, conv[0], cur, {}, s)
                        c.functions.update(w.I.fnlog)
                    addr(c, A, first, w, s, r, OLD, off, "%srow by %d subscripts" % ("constant " if const else "", rank - 1))
            else:
                for f in prog.byqual.get(A.cls + "::operator double *", []) + prog.byqual.get(A.cls + "::operator const double *", []):
                    w = World(A, (THIS,))
                    w.put(THIS, "own", sz, block=OLD)
                    s, r = w.call(f, THIS)
                    addr(c, A, f, w, s, r, OLD, ZERO, "as a pointer")
        if not rank:
            code = "f" if T_ == "double" else "i"
            X, Y = atom(("value",)), atom(("factor",))
            for name, want in (("operator=", lambda x, y: X), ("Scale", lambda x, y: mul(x, X)), ("AddProduct", lambda x, y: add(x, mul(X, y))), ("Zero", lambda x, y: ZERO), ("operator " + T_, None)):
                for f in A.m(name):
                    if name == "operator=" and A.cls in f.params[0][2]:
                        continue
                    for kind in ("own", "foreign"):
                        w = world(kind)
                        blk = OLD if kind == "own" else FOREIGN
                        w.put(OTHER, "own", (), block=SRC)
                        w.st.store[blk], w.st.store[SRC] = atom(("before",)), atom(("operand",))
                        pl = ("G", "arg")
                        w.st.store[pl] = X
                        s, r = w.call(f, THIS, [("PLACE", OTHER) if A.cls in p[2] else ("PLACE", pl) if is_ref(p[2]) else X for p in f.params])
                        got = None if s is None else r if want is None else w.I.load(s, blk, code)
                        goal = atom(("before",)) if want is None else want(atom(("before",)), atom(("operand",)))
                        if name == "Zero" and s is not None:
                            O(f, w.zeroed(s, blk, 1) or (isinstance(got, Poly) and is_zero(got)), "Zero sets the value to zero (%s)" % kind, "value")
                            continue
                        O(f, isinstance(got, Poly) and equal(got, goal), "%s: value %s (%s)" % (name, show(got) if isinstance(got, Poly) else got, kind), "value")
    containers(c, prog)
    c.need("own", 500)
    c.need("state", 500)
    c.need("address", 20)
    c.need("container", 20)
    return c.finish("other",
                    "Every member of the array classes (all instantiated, used or not) is interpreted from each state an array can be in (empty, sized, with memory of its own, with memory of somebody else) over a heap that records what is obtained, zeroed, copied and released; element addresses are compared as polynomials in symbolic sizes and indices; containers are interpreted over chunks of several sizes.",
                    {"own": "own memory is released once, foreign memory never, nothing leaks, own memory is large enough",
                     "state": "each operation from each state ends as documented or is refused",
                     "address": "the address of an element is its row-major position",
                     "container": "members tile the container's zeroed memory in the order they were added"},
                    assumptions=["malloc succeeds", "no operation is called on an object of ended lifetime"])


def addr(c, A, f, w, s, r, blk, off, what):
    ok = None
    if s is None:
        ok = False
    elif isinstance(r, Poly):
        x = w.I.load_elem(s, ("E", blk, (off,)), "f")
        ok = True if equal(r, x) else None if "sel" in show(r) else False
    elif isinstance(r, tuple) and r[0] in ("ptr", "lref", "obj") and isinstance(r[1], tuple):
        p = r[1]
        if p[0] == "E" and p[1] == blk:
            ok = bool(equal(p[2][0] if p[2] else ZERO, off))
        elif p == blk:
            ok = is_zero(off)
        else:
            ok = False
    c.ob("address", (f.file, f.line, f.qual), ok, "%s %s is row-major: %s" % (A.cls, what, show(r) if isinstance(r, Poly) else r), "%s|%s|address|%d" % (A.cls, f.name, f.line))


def containers(c, prog):
    K = "DataContainer::"
    flds = {q.split("::")[-1]: (q, t) for q, t, ln, ini in prog.classes["DataContainer"]["fields"]}
    ptr = [q for q, t in flds.values() if t.endswith("*")]
    own = [q for q, t in flds.values() if t == "bool"]
    vec = [q for q, t in flds.values() if "vector" in t]
    if len(ptr) != 1 or len(own) != 1 or len(vec) != 1:
        raise AnalysisBroken("fields of DataContainer not recognised")
    ptr, own, vec = ptr[0], own[0], vec[0]
    THIS = ("this",)
    V = ("F", THIS, vec)

    def world(kind, chunks):
        I = new_interp(prog)
        st = State()
        blocks = {}
        OLD = ("G", "old")
        if kind in ("own", "foreign"):
            blocks[OLD] = [None, kind]
        st.store[("F", THIS, ptr)] = ("ptr", OLD) if kind in ("own", "foreign") else ("null",)
        st.store[("F", THIS, own)] = F if kind == "foreign" else T
        st.store[("F", V, "$size")] = num(len(chunks))
        ch = [("G", "chunk%d" % i) for i in range(len(chunks))]
        for i in range(len(chunks)):
            I.store_to(st, ("E", V, (num(i),)), ("ptr", ch[i]))

        def hook(I, st, fr, n, key, qual, place, args):
            nm = (qual or "").split("::")[-1]
            if place in ch and (qual or "").startswith("DataChunk::"):
                i = ch.index(place)
                if nm == "GetByteSize":
                    return num(chunks[i])
                vs = tuple(I.ev(a, st, fr) for a in args)
                st.event("chunk", nm, i, vs)
                return ("opq", ("void",))
            if nm in ("malloc", "calloc") and place is None:
                vs = [I.as_num(I.ev(a, st, fr)) for a in args]
                b = ("G", "block%d" % len(blocks))
                blocks[b] = [vs[0] if nm == "malloc" else mul(vs[0], vs[1]), "own"]
                if nm == "calloc":
                    st.event("zero", ("ptr", b), ZERO, blocks[b][0])
                return ("ptr", b)
            if nm == "free" and len(args) == 1:
                st.event("release", I.ev(args[0], st, fr))
                return ("opq", ("void",))
            if nm == "memset" and len(args) == 3:
                p = I.ev(args[0], st, fr)
                st.event("zero", p, I.as_num(I.ev(args[1], st, fr)), I.as_num(I.ev(args[2], st, fr)))
                return p
            return NotImplemented
        I.call_hook = hook
        return I, st, blocks, OLD

    def call(I, st, f, vals=()):
        s, r = run_function(I, f, THIS, {p[1]: v for p, v in zip(f.params, vals)}, st)
        c.functions.update(I.fnlog)
        if s is None or any(ncond(t[0], {}) for t in I.throws):
            return None, None, []
        ev = [e for e, cd, lp in flatten(trace_list(s.trace)) if ncond(cd, {})]
        return s, r, ev

    def ob(f, ok, what, key):
        c.ob("container", (f.file, f.line, f.qual), ok, what, "DataContainer|%s|%s" % (f.name, key))

    def at(v, b):
        """byte offset in block b, or None."""
        if v[0] != "ptr":
            return None
        p, o = v[1], 0
        while p[0] == "E" and p[1] != b and len(p[2]) == 1:
            o += nval(p[2][0], {})
            p = p[1]
        if p == b:
            return int(o)
        if p[0] == "E" and p[1] == b:
            return int(o + (nval(p[2][0], {}) if p[2] else 0))
        return None

    LISTS = ((), (8,), (24, 8, 16), (8, 8), (16, 40, 8, 32))
    for chunks in LISTS:
        f = prog.fn(K + "GetTotalByteSize")
        I, st, blocks, OLD = world("empty", chunks)
        s, r, ev = call(I, st, f)
        ob(f, s is not None and int(nval(r, {})) == sum(chunks), "total size of chunks %s" % (chunks,), "total")
        for meth, kind in (("Allocate", "empty"), ("AttachTo", "empty"), ("Allocate", "own"), ("Allocate", "foreign"), ("AttachTo", "own"), ("AttachTo", "foreign")):
            f = prog.fn(K + meth)
            I, st, blocks, OLD = world(kind, chunks)
            GIV = ("G", "given")
            s, r, ev = call(I, st, f, [("ptr", GIV)] if meth == "AttachTo" else [])
            if kind != "empty":
                ob(f, s is None, "%s is refused when memory is attached (%s)" % (meth, kind), "refuse " + kind)
                continue
            if s is None:
                ob(f, False, "%s of chunks %s is accepted" % (meth, chunks), "accept")
                continue
            p = I.load(s, ("F", THIS, ptr), "p")
            p = p[1] if p[0] == "ptr" else None
            o = ncond(I.load(s, ("F", THIS, own), "b"), {})
            if meth == "Allocate":
                ob(f, p in blocks and int(nval(blocks[p][0], {})) >= sum(chunks) and len(blocks) == 1 and o, "Allocate: one block of its own for chunks %s" % (chunks,), "block")
                z = [i for i, e in enumerate(ev) if e[0] == "zero" and at(e[1], p) == 0 and is_zero(e[2]) and sum(chunks) <= nval(e[3], {}) <= nval(blocks[p][0], {})] if p in blocks else []
                ob(f, bool(z) or not sum(chunks), "Allocate: memory of chunks %s starts as zeros" % (chunks,), "zero")
                bad = [e for e in ev if e[0] == "zero" and p in blocks and nval(e[3], {}) > nval(blocks[p][0], {})]
                ob(f, not bad, "Allocate: nothing beyond the block is written", "beyond")
            else:
                ob(f, p == GIV and o is False and not blocks, "AttachTo: uses the given memory and does not own it", "given")
            got = [(e[2], at(e[3][0], p)) for e in ev if e[0] == "chunk" and e[1] == "AttachToData"] if p is not None else None
            want, a = [], 0
            for i, n in enumerate(chunks):
                want.append((i, a))
                a += n
            ob(f, got is not None and sorted(got, key=str) == sorted(want, key=str), "%s: chunks %s follow one another in memory in their order: %s" % (meth, chunks, got), "tile")
        for meth in ("Detach", "Deallocate", "~DataContainer"):
            f = prog.fn(K + meth)
            for kind in ("empty", "own", "foreign"):
                I, st, blocks, OLD = world(kind, chunks)
                s, r, ev = call(I, st, f)
                if s is None:
                    ob(f, False, "%s (%s) is accepted" % (meth, kind), "accept")
                    continue
                rel = [at(e[1], OLD) for e in ev if e[0] == "release" and e[1][0] != "null"]
                rel += ["delete" for e in ev if e[0] == "delete" and e[1][0] != "null"]
                ob(f, rel == ([0] if kind == "own" else []), "%s (%s): own memory is freed once, foreign memory never" % (meth, kind), "free " + kind)
                if meth != "~DataContainer":
                    d = sorted(e[2] for e in ev if e[0] == "chunk" and e[1] == "Detach")
                    ob(f, d == list(range(len(chunks))), "%s (%s): every chunk of %s is detached once" % (meth, kind, chunks), "detach")
                    p = I.load(s, ("F", THIS, ptr), "p")
                    o = ncond(I.load(s, ("F", THIS, own), "b"), {})
                    ob(f, p[0] == "null" and o, "%s (%s): ready to be allocated or attached again" % (meth, kind), "again")
    f = prog.fn(K + "GetTotalByteSize")
    I, st, blocks, OLD = world("empty", (8, 12, 8))
    ob(f, call(I, st, f)[0] is None, "chunks that would misalign the next are refused", "misaligned")
    f = prog.fn(K + "PushDataChunk")
    for chunks in LISTS:
        I, st, blocks, OLD = world("empty", chunks)
        s, r, ev = call(I, st, f, [("ptr", ("G", "added"))])
        n = len(chunks)
        ok = s is not None and int(nval(r, {})) == n and int(nval(I.load(s, ("F", V, "$size"), "i"), {})) == n + 1
        ok = ok and all(I.load_elem(s, ("E", V, (num(i),)), "p")[1] == (("G", "chunk%d" % i) if i < n else ("G", "added")) for i in range(n + 1))
        ob(f, ok, "a chunk is added behind the %d before it and its index returned" % n, "push")
    for kind in ("empty", "own", "foreign"):
        I, st, blocks, OLD = world(kind, (8,))
        f = prog.fn(K + "IsAttached")
        s, r, ev = call(I, st, f)
        ob(f, s is not None and ncond(r, {}) == (kind != "empty"), "IsAttached (%s)" % kind, "attached")
        for f in prog.byqual[K + "GetPointer"]:
            I, st, blocks, OLD = world(kind, (8,))
            s, r, ev = call(I, st, f)
            ob(f, s is not None and (r[0] == "null" if kind == "empty" else r == ("ptr", OLD)), "GetPointer (%s) is the start of the memory" % kind, "pointer")
