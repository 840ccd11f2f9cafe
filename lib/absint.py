"""Abstract interpreter over the typed AST.

Domain: every scalar is a normal form (sym.Poly), a pointer/place, a condition or an opaque value; joins build gated
values phi(cond, a, b); loops are summarised (induction variables, sums, element-wise array definitions) instead of
being iterated; helpers of the repository are interpreted in place, so extracting or inlining one changes nothing.
Effects are kept in a structured trace of events, gated by conditions and nested in loop nodes."""
import re
import sys
from fractions import Fraction
from sym import *
import sym
from prog import AnalysisBroken, walk

sys.setrecursionlimit(20000)

CLS_ARR = re.compile(r"^(?:const )?(DataArray[1-4]D|Subscript)<")


def base_type(t):
    t = t.strip()
    while True:
        if t.endswith("&") or t.endswith("*"):
            t = t[:-1].strip()
        elif t.startswith("const "):
            t = t[6:]
        elif t.endswith(" const"):
            t = t[:-6]
        else:
            return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_ptr(t):
    t = t.strip()
    return t.endswith("*") or t.endswith("*const") or t.endswith("* const")


def scalar_code(t):
    b = t.strip()
    if is_ptr(b):
        return "p"
    if b.endswith("]"):
        return "a"
    b = base_type(b)
    if b in ("double", "float", "long double"):
        return "f"
    if b == "bool":
        return "b"
    if b in ("int", "unsigned int", "long", "unsigned long", "short", "char", "unsigned char", "signed char",
             "long long", "unsigned long long", "unsigned short", "size_t"):
        return "i"
    return "c"


class Chain(object):
    """array content as a chain of definitions (newest first)."""
    __slots__ = ("k", "prev", "a", "b", "c", "d", "uid", "cache")
    n = 0

    def __init__(self, k, prev=None, a=None, b=None, c=None, d=None):
        self.k, self.prev, self.a, self.b, self.c, self.d = k, prev, a, b, c, d
        Chain.n += 1
        self.uid = Chain.n
        self.cache = {}


def const_key(idx):
    """constant index as a tuple of numbers, or None."""
    out = []
    for i in idx:
        if not isinstance(i, Poly) or not i.is_const():
            return None
        out.append(i.const())
    return tuple(out)


class TNode(object):
    __slots__ = ("prev", "ev", "n")

    def __init__(self, prev, ev):
        self.prev, self.ev = prev, ev
        self.n = (prev.n if prev else 0) + 1


def trace_list(node, stop=None):
    out = []
    while node is not stop and node is not None:
        out.append(node.ev)
        node = node.prev
    out.reverse()
    return out


def common(a, b):
    while a is not b:
        if a is None or b is None:
            return None
        if a.n >= b.n:
            if a.n == b.n:
                b = b.prev
            a = a.prev
        else:
            b = b.prev
    return a


class State(object):
    __slots__ = ("store", "facts", "trace", "dead", "path")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.trace = None
        self.dead = False
        self.path = T

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.dead = self.dead
        s.path = self.path
        return s

    def become(self, o):
        self.store, self.facts, self.trace, self.dead, self.path = o.store, o.facts, o.trace, o.dead, o.path

    def assume(self, c):
        self.path = cand(self.path, c)
        for a, v in literals(c):
            self.facts[a] = v
        self.facts[c] = True

    def event(self, *ev):
        self.trace = TNode(self.trace, ev)


class Frame(object):
    def __init__(self, fn, this, uid):
        self.fn = fn
        self.this = this
        self.env = {}
        self.uid = uid
        self.names = {}


class Interp(object):
    def __init__(self, prog, call_hook=None, dynclass=None, inline=None, unroll=12, maxdepth=40, field_init=None):
        self.prog = prog
        self.call_hook = call_hook          # (interp, st, fr, node, key, qual, obj, args(lazy)) -> value or NotImplemented
        self.dynclass = dynclass            # place -> class name or None
        self.inline = inline or (lambda fn: True)
        self.unroll = unroll
        self.maxdepth = maxdepth
        self.field_init = field_init        # place -> initial value or None
        self.uid = 0
        self.stack = []
        self.opaque_calls = {}
        self.lams = {}                      # call operator -> places of what its lambda captured, this
        self.throws = []
        self.stores = []                    # (place, value, file, line, path, loops)
        self.loops = []
        self.peel = 0                       # analyse this many iterations of undecided loops one by one instead of summarising
        self.residual = []
        self.log_stores = False
        self.unsupported = {}
        self.reads = None
        self.fnlog = set()
        self.beyond = []                    # elements with constant indices accessed outside of arrays whose sizes were given as constants
        self.raw_arrays = False             # interpret the array classes' own code instead of their contract

    # ------------------------------------------------------------------ helpers
    def new_uid(self):
        self.uid += 1
        return self.uid

    def where(self, node):
        f = self.stack[-1].fn if self.stack else None
        return (f.file if f else "?", node[1] if node else 0, f.qual if f else "?")

    def note(self, what, node):
        self.unsupported.setdefault(what, self.where(node))

    # ------------------------------------------------------------------ store access
    def init_value(self, place, tcode, st=None):
        if self.field_init is not None:
            v = self.field_init(place, tcode)
            if v is not None:
                return v
        if tcode == "p":
            return ("ptr", ("D", place))
        if tcode == "b":
            return ("b", ("in", place))
        if tcode in ("c", "a"):
            return ("obj", place)
        return atom(("in", place))

    def load(self, st, place, tcode):
        if place[0] == "E":
            return self.load_elem(st, place, tcode)
        if place in st.store:
            v = st.store[place]
            if st.facts and isinstance(v, (Poly, tuple)) and find_cond(v) is not None:
                v = simplify(v, st.facts)
            return v
        if place[0] == "PHI":
            a = self.load(st, place[2], tcode)
            b = self.load(st, place[3], tcode)
            return phi(place[1], a, b)
        return self.init_value(place, tcode, st)

    def chain(self, st, arr):
        c = st.store.get(("ARR", arr))
        if c is None:
            c = Chain("init", None, arr)
            st.store[("ARR", arr)] = c
        return c

    def load_elem(self, st, place, tcode):
        arr, idx = place[1], place[2]
        if arr[0] == "PHI":
            return phi(arr[1], self.load_elem(st, ("E", arr[2], idx), tcode), self.load_elem(st, ("E", arr[3], idx), tcode))
        if any(isinstance(i, Poly) and find_cond(i) is not None for i in idx):
            idx = tuple(simplify(i, st.facts) for i in idx)
            for i in idx:
                c = find_top_phi(i)
                if c is not None:
                    ia = tuple(assume(j, c, True) for j in idx)
                    ib = tuple(assume(j, c, False) for j in idx)
                    return phi(c, self.load_elem(st, ("E", arr, ia), tcode), self.load_elem(st, ("E", arr, ib), tcode))
        ch = st.store.get(("ARR", arr))
        if ch is None:
            return self.init_value(("E", arr, idx), tcode, st)
        v = self.chain_read(ch, arr, idx, tcode, st.facts, 0)
        if st.facts and isinstance(v, (Poly, tuple)) and find_cond(v) is not None:
            v = simplify(v, st.facts)
        return v

    def eqcond(self, a, b, facts):
        """condition that index tuples a and b are equal."""
        c = T
        if len(a) != len(b):
            return None
        for x, y in zip(a, b):
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                e = T if x == y else ("b", ("eqv", x, y))
            else:
                d = sub(x, y)
                e = eq0(d)
                if e not in (T, F):
                    r = decide(e, facts)
                    if r is None:
                        r = self.range_decide_nonzero(d)
                    if r is True:
                        e = T
                    elif r is False:
                        e = F
            c = cand(c, e)
            if c == F:
                return F
        return c

    def range_decide_nonzero(self, d):
        """False when d == 0 is impossible from the ranges of loop counters (d = c0 + sum c_i lv_i, lv_i in [0,T))."""
        lo, hi = poly_range(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return None

    def chain_read(self, ch, arr, idx, tcode, facts, depth):
        key = (idx, tcode)
        if not facts and key in ch.cache:
            return ch.cache[key]
        v = self._chain_read(ch, arr, idx, tcode, facts, depth)
        if not facts:
            ch.cache[key] = v
        return v

    def _chain_read(self, ch, arr, idx, tcode, facts, depth):
        ck = const_key(idx)
        while True:
            k = ch.k
            if k == "def" and ck is not None:
                dk = ch.d
                if dk is None:
                    dk = ch.d = const_key(ch.a) or False
                if dk and len(dk) == len(ck):
                    if dk == ck:
                        return ch.b
                    ch = ch.prev
                    continue
            if k == "init":
                return self.init_value(("E", ch.a, idx), tcode)
            if k == "fill":
                return ch.a
            if k == "havoc":
                return opaque_value(("hav", ch.uid, arr, idx), tcode)
            if k == "def":
                c = self.eqcond(ch.a, idx, facts)
                if c is None:
                    return opaque_value(("sel", ch.uid, arr, idx), tcode)
                if c == T:
                    return ch.b
                if c == F:
                    ch = ch.prev
                    continue
                if depth > 6:
                    return opaque_value(("sel", ch.uid, arr, idx), tcode)
                rest = self.chain_read(ch.prev, arr, idx, tcode, facts, depth + 1)
                return phi(c, ch.b, rest)
            if k == "phi":
                r = decide(ch.c, facts)
                if r is True:
                    ch = ch.a
                    continue
                if r is False:
                    ch = ch.b
                    continue
                a = self.chain_read(ch.a, arr, idx, tcode, facts, depth)
                b = self.chain_read(ch.b, arr, idx, tcode, facts, depth)
                return phi(ch.c, a, b)
            if k == "mark":
                # iteration-local view of an array that an enclosing loop may be writing
                L = ch.a
                if L.resolved is not None and arr not in L.written:
                    ch = ch.prev
                    continue
                return opaque_value(("carry", L.id, arr, idx, tcode), tcode)
            if k == "loop":
                return self.loop_read(ch, arr, idx, tcode, facts, depth)
            raise AssertionError(k)

    def loop_read(self, ch, arr, idx, tcode, facts, depth):
        """value at idx after loop ch.a (Loop) whose body chain is ch.b (down to the marker of that loop)."""
        L = ch.a
        body = ch.b
        prev = ch.prev
        lvatom = atom(L.lv)
        sols = set()
        invariant = False
        for d in chain_defs(body, L):
            r = solve_lv(d, idx, L, lvatom, facts, self)
            if r == "no":
                continue
            if r == "inv":
                invariant = True
                continue
            if r == "maybe":
                return opaque_value(("sel", ch.uid, arr, idx), tcode)
            sols.add(r)
        if not sols and not invariant:
            return self.chain_read(prev, arr, idx, tcode, facts, depth)
        if len(sols) == 1 and not invariant:
            s = next(iter(sols))
            rng = cand(cnot(lt0(s)), lt0(sub(s, L.count)))
            rr = decide(rng, facts)
            if rr is None:
                rr = in_range(s, L.count)
            if rr is False:
                return self.chain_read(prev, arr, idx, tcode, facts, depth)
            v = self.read_iter(ch, arr, idx, tcode, facts, depth)
            v = vsubst(v, {L.lv: s})
            if rr is True:
                return v
            return phi(rng, v, self.chain_read(prev, arr, idx, tcode, facts, depth))
        if invariant and not sols:
            v = self.chain_read(body, arr, idx, tcode, {}, depth)
            carry = ("carry", L.id, arr, idx, tcode)
            p0 = self.chain_read(prev, arr, idx, tcode, facts, depth)
            if isinstance(v, Poly) and isinstance(p0, Poly):
                ca = atom(carry)
                if not occurs_carry(L.id, v):
                    last = subst(v, {L.lv: sub(L.count, ONE)})
                    return phi(lt0(neg(L.count)), last, p0)
                d = sub(v, ca)
                if not occurs_carry(L.id, d):
                    return add(p0, mksum(L.lv, L.count, d))
        return opaque_value(("sel", ch.uid, arr, idx), tcode)

    def read_iter(self, ch, arr, idx, tcode, facts, depth):
        """value at idx at the end of the one iteration that writes it: the marker shows the content before the loop."""
        L = ch.a
        v = self.chain_read(ch.b, arr, idx, tcode, {}, depth)
        carry = ("carry", L.id, arr, idx, tcode)
        prev = ch.prev

        def f(t):
            if t[0] == "carry" and t[1] == L.id and t[2] == arr:
                r = self.chain_read(prev, arr, t[3], t[4], facts, depth + 1)
                return r if isinstance(r, Poly) else None
            if t[0] == "cond" and t[1][0] == "b" and t[1][1][0] == "carry" and t[1][1][1] == L.id:
                r = self.chain_read(prev, arr, t[1][1][3], "b", facts, depth + 1)
                return r
            return None
        if isinstance(v, (Poly, tuple)):
            if v == ("b", carry):
                return self.chain_read(prev, arr, idx, tcode, facts, depth + 1)
            return rewrite(v, f)
        return v

    def store_to(self, st, place, value, node=None):
        if self.log_stores:
            self.stores.append((place, value, self.where(node), st.path, tuple(self.loops)))
        if place[0] == "PHI":
            c = place[1]
            old = self.load(st, place[2], "f")
            self.store_to(st, place[2], phi(c, value, old))
            old = self.load(st, place[3], "f")
            self.store_to(st, place[3], phi(c, old, value))
            return
        if place[0] == "E":
            arr, idx = place[1], place[2]
            ch = self.chain(st, arr)
            st.store[("ARR", arr)] = Chain("def", ch, idx, value)
            for L in self.loops:
                L.written.add(arr)
            return
        st.store[place] = value
        for L in self.loops:
            L.modified.add(place)

    def set_chain(self, st, arr, ch):
        st.store[("ARR", arr)] = ch
        for L in self.loops:
            L.written.add(arr)

    # ------------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        """state that is s1 when c, s2 otherwise."""
        if s1 is None or s1.dead:
            return s2
        if s2 is None or s2.dead:
            return s1
        s = State()
        out = {}
        ks = set(s1.store) | set(s2.store)
        for k in ks:
            a, b = s1.store.get(k), s2.store.get(k)
            if a is b or a == b:
                out[k] = a
                continue
            if k[0] == "ARR":
                if a is None:
                    a = Chain("init", None, k[1])
                if b is None:
                    b = Chain("init", None, k[1])
                out[k] = Chain("phi", None, a, b, c)
                continue
            if a is None:
                a = self.init_like(k, b)
            if b is None:
                b = self.init_like(k, a)
            out[k] = vphi(c, a, b)
        s.store = out
        s.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        base = common(s1.trace, s2.trace)
        if s1.trace is s2.trace:
            s.trace = s1.trace
        else:
            s.trace = TNode(base, ("if", c, trace_list(s1.trace, base), trace_list(s2.trace, base)))
        # common path
        s.path = common_path(s1.path, s2.path)
        return s

    def init_like(self, place, v):
        if isinstance(v, Poly):
            return self.init_value(place, "f")
        if isinstance(v, tuple):
            if v[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
                return self.init_value(place, "b")
            if v[0] in ("ptr",):
                return self.init_value(place, "p")
            if v[0] == "str":
                return ("opq", ("in", place))
        return ("opq", ("in", place))

    # ------------------------------------------------------------------ expressions
    def as_cond(self, v):
        if isinstance(v, Poly):
            return cnot(eq0(v))
        if isinstance(v, tuple):
            if v[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
                return v
            if v[0] == "phi":
                return cor(cand(v[1], self.as_cond(v[2])), cand(cnot(v[1]), self.as_cond(v[3])))
            if v[0] == "null":
                return F
            if v[0] == "ptr":
                p = v[1]
                if p[0] in ("L", "G", "E", "F", "H", "T", "this", "obj"):
                    return T
                return cnot(("b", ("isnull", p)))
            return ("b", v)
        return ("b", ("opq", repr(v)))

    def as_num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, tuple):
            if v[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
                return b2i(v)
            if v[0] == "phi":
                return phi(v[1], self.as_num(v[2]), self.as_num(v[3]))
            return atom(("opq", v))
        return atom(("opq", repr(v)))

    def truth(self, st, c):
        c2 = csimplify(c, st.facts)
        if c2 == T:
            return True
        if c2 == F:
            return False
        if c2[0] in ("lt", "eq") or (c2[0] == "not" and c2[1][0] in ("lt", "eq")):
            pos = c2[0] != "not"
            a = c2 if pos else c2[1]
            lo, hi = poly_range(a[1])
            if a[0] == "lt":
                if hi is not None and hi < 0:
                    return pos
                if lo is not None and lo >= 0:
                    return not pos
            else:
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return not pos
        return None

    def ev(self, n, st, fr):
        k = n[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expression " + k, n)
            return ("opq", ("unsupported", k, self.new_uid()))
        v = m(n, st, fr)
        if isinstance(v, tuple) and v and v[0] == "lref":
            tc = n[7] if k == "mcall" else n[5]
            return self.load_obj(st, v[1]) if tc == "c" else self.load(st, v[1], tc)
        return v

    def ev_ref(self, n, st, fr):
        """like ev, but a returned reference stays one."""
        if n[0] in ("call", "mcall", "ocall"):
            return getattr(self, "e_" + n[0])(n, st, fr)
        return self.ev(n, st, fr)

    def e_int(self, n, st, fr):
        return num(int(n[2]))

    def e_bool(self, n, st, fr):
        return T if int(n[2]) else F

    def e_flt(self, n, st, fr):
        try:
            return num(Fraction(n[2]))
        except ValueError:
            return num(Fraction(float.fromhex(n[2]) if "x" in n[2].lower() else float(n[2])))

    def e_str(self, n, st, fr):
        return ("str", n[2])

    def e_null(self, n, st, fr):
        return ("null",)

    def e_enum(self, n, st, fr):
        return num(int(n[3]))

    def e_this(self, n, st, fr):
        return ("ptr", fr.this)

    def e_sizeof(self, n, st, fr):
        return num(int(n[3])) if n[3] is not None else atom(("sizeof", n[2]))

    def e_zero(self, n, st, fr):
        c = scalar_code(n[2])
        if c == "p":
            return ("null",)
        if c == "b":
            return F
        return ZERO

    def e_fn(self, n, st, fr):
        return ("opq", ("fn", n[2], n[3]))

    def var_place(self, n, fr):
        vid, name, kind = n[2], n[3], n[4]
        if kind in ("g",):
            return ("G", name)
        if kind == "s":
            return ("G", fr.fn.qual + "::" + name)
        p = fr.env.get(vid)
        if p is None:
            p = ("L", fr.uid, vid, name)
            fr.env[vid] = p
        return p

    def e_var(self, n, st, fr):
        if n[5] is not None and n[4] == "g" or (n[5] is not None and n[4] in ("l", "s") and n[2] not in fr.env):
            return num(int(n[5])) if n[6] != "b" else (T if int(n[5]) else F)
        p = self.var_place(n, fr)
        if p[0] == "G" and p not in st.store:
            g = self.prog.globals.get(p[1])
            if g is not None and g["const"] and g["init"] is not None:
                sc = scalar_code(g["type"])
                if sc in ("f", "i", "b"):
                    return self.ev(g["init"], st, fr)
                if sc == "a":
                    self.global_array(st, p, g, fr)
        if n[6] == "p" and self.is_array_place(p, fr):
            return ("ptr", ("E", p, ()))
        if n[6] == "c":
            return self.load_obj(st, p)
        return self.load(st, p, n[6])

    def load_obj(self, st, p):
        v = st.store.get(p)
        if v is not None:
            return v
        return ("obj", p)

    def global_array(self, st, p, g, fr):
        if ("ARR", p) in st.store:
            return
        ch = Chain("fill", None, ZERO)

        def fill(ini, idx):
            nonlocal ch
            if ini[0] == "init":
                for i, x in enumerate(ini[2]):
                    fill(x, idx + (num(i),))
            else:
                ch = Chain("def", ch, idx, self.ev(ini, st, fr))
        fill(g["init"], ())
        st.store[("ARR", p)] = ch

    def is_array_place(self, p, fr):
        if p[0] == "G":
            g = self.prog.globals.get(p[1])
            return g is not None and g["type"].strip().endswith("]")
        return p in self.arrays
    arrays = set()

    def e_mem(self, n, st, fr):
        p = self.lv(n, st, fr)
        tc = n[4]
        if tc == "c":
            return self.load_obj(st, p)
        ft = self.prog.fields.get(n[3], "")
        if tc == "p" and ft.strip().endswith("]"):
            return ("ptr", ("E", p, ()))
        return self.load(st, p, tc)

    def e_idx(self, n, st, fr):
        p = self.lv(n, st, fr)
        if n[4] == "c":
            return self.load_obj(st, p)
        if n[4] == "p":
            # partially indexed multi-dimensional array, or an element holding a pointer
            if p[0] == "E" and (p in st.store or self.pointer_elem(p, st)):
                return self.load(st, p, "p")
            if p[0] == "E":
                return ("ptr", ("E", p[1], p[2]))
            return self.load(st, p, "p")
        return self.load(st, p, n[4])

    def pointer_elem(self, p, st):
        """is the element type of this array a pointer (as opposed to a sub-array)."""
        t = self.array_type(p[1])
        return t is not None and "*" in t and not t.endswith("]")

    def array_type(self, arr):
        if arr[0] == "F":
            return self.prog.fields.get(arr[2])
        if arr[0] == "G":
            g = self.prog.globals.get(arr[1])
            return g["type"] if g else None
        return None

    def e_decl(self, n, st, fr):
        raise AssertionError

    def to_place(self, v, st=None):
        """place designated by a pointer value."""
        if isinstance(v, tuple):
            if v[0] == "ptr":
                p = v[1]
                return p
            if v[0] == "obj":
                return v[1]
            if v[0] == "phi":
                a, b = self.to_place(v[2]), self.to_place(v[3])
                return a if a == b else ("PHI", v[1], a, b)
            if v[0] == "null":
                return ("D", ("null",))
            return ("D", v)
        return ("D", ("num", v))

    def lv(self, n, st, fr):
        k = n[0]
        if k == "var":
            p = self.var_place(n, fr)
            if p[0] == "G" and p not in st.store:
                g = self.prog.globals.get(p[1])
                if g is not None and scalar_code(g["type"]) == "a" and g["const"]:
                    self.global_array(st, p, g, fr)
            return p
        if k == "this":
            return fr.this
        if k == "mem":
            b = n[2]
            if b[0] == "this":
                base = fr.this
            else:
                base = self.obj_place(b, st, fr)
            if n[3].startswith("std::pair<"):
                w = "$" + n[3].rsplit("::", 1)[1]
                if base[0] == "MP":
                    return self.temp(st, base[2]) if w == "$first" else ("E", base[1], (base[2],))
                return ("F", base, w)
            ft = self.prog.fields.get(n[3], "")
            if base[0] == "PHI" and not is_ref(ft):
                return self.phi_field(base, n[3])
            p = ("F", base, n[3])
            if is_ref(ft):
                return st.store.get(("REF", p), ("D", p))
            return p
        if k == "idx":
            b = self.ev(n[2], st, fr)
            i = self.as_num(self.ev(n[3], st, fr))
            r = self.carry(self.index_place(b, (i,)), st)
            self.inside(r, st, n)
            return r
        if k == "un" and n[2] == "*":
            v = self.ev(n[3], st, fr)
            p = self.to_place(v)
            if p[0] == "E" and False:
                return p
            return p
        if k == "un" and n[2] in ("++pre", "--pre"):
            self.ev(n, st, fr)
            return self.lv(n[3], st, fr)
        if k == "ocall":
            r = self.arr_access(n, st, fr)
            if r is not None:
                return r
            v = self.e_ocall(n, st, fr)
            if isinstance(v, tuple) and v and v[0] == "lref":
                return v[1]
            return self.to_place(v) if isinstance(v, tuple) and v[0] in ("ptr", "obj", "phi") else self.temp(st, v)
        if k in ("call", "mcall"):
            v = self.ev_ref(n, st, fr)
            if isinstance(v, tuple) and v[0] == "lref":
                return v[1]
            if isinstance(v, tuple) and v[0] in ("ptr", "obj", "phi"):
                return self.to_place(v)
            return self.temp(st, v)
        if k == "cond":
            c = self.as_cond(self.ev(n[2], st, fr))
            t = self.truth(st, c)
            if t is True:
                return self.lv(n[3], st, fr)
            if t is False:
                return self.lv(n[4], st, fr)
            a, b = self.lv(n[3], st, fr), self.lv(n[4], st, fr)
            return a if a == b else ("PHI", c, a, b)
        if k == "cast":
            return self.lv(n[3], st, fr)
        if k == "asg":
            self.ev(n, st, fr)
            return self.lv(n[3], st, fr)
        v = self.ev(n, st, fr)
        if isinstance(v, tuple) and v[0] in ("obj",):
            return v[1]
        return self.temp(st, v)

    def phi_field(self, b, q):
        if b[0] == "PHI":
            return ("PHI", b[1], self.phi_field(b[2], q), self.phi_field(b[3], q))
        return ("F", b, q)

    def temp(self, st, v):
        p = ("T", self.new_uid())
        st.store[p] = v
        return p

    def inside(self, r, st, n):
        """Note an element with constant index outside of an array of constant size, touched for certain."""
        if r[0] == "E" and st.path == T:
            for d, i in enumerate(r[2]):
                x = st.store.get(("EXT", r[1], d))
                if isinstance(x, Poly) and x.is_const() and i.is_const() and not 0 <= i.const() < x.const():
                    self.beyond.append((r[1], d, int(i.const()), int(x.const()), self.where(n)))

    def carry(self, r, st):
        """The element reached by walking in storage order, in terms of rows and columns."""
        if r[0] != "E":
            return r
        idx = list(r[2])
        for d in range(len(idx) - 1, 0, -1):
            x = st.store.get(("EXT", r[1], d))
            if not (isinstance(x, Poly) and x.is_const() and x.const() > 0 and idx[d].is_const()):
                break
            q, m = divmod(int(idx[d].const()), int(x.const()))
            idx[d], idx[d - 1] = num(m), add(idx[d - 1], num(q))
        return ("E", r[1], tuple(idx))

    def index_place(self, b, idx):
        if isinstance(b, tuple) and b[0] == "phi":
            x, y = self.index_place(b[2], idx), self.index_place(b[3], idx)
            return x if x == y else ("PHI", b[1], x, y)
        if isinstance(b, tuple) and b[0] == "obj":
            return ("E", b[1], idx)
        p = self.to_place(b)
        if p[0] == "PHI":
            return ("PHI", p[1], self.index_place(("ptr", p[2]), idx), self.index_place(("ptr", p[3]), idx))
        if p[0] == "E":
            ar = self.arr_rank(p[1])
            if ar is not None and len(p[2]) >= ar:
                # pointer to an element, indexed: offset in the last dimension
                return ("E", p[1], p[2][:-1] + (add(p[2][-1], idx[0]),))
            if ar is None and len(p[2]) >= 1 and b[0] == "ptr" and self.elem_ptr(b):
                return ("E", p[1], p[2][:-1] + (add(p[2][-1], idx[0]),))
            return ("E", p[1], p[2] + idx)
        return ("E", p, idx)

    def elem_ptr(self, b):
        return len(b) > 2 and b[2] == "elem"

    def arr_rank(self, arr):
        return self.ranks.get(arr)
    ranks = {}

    def arr_access(self, n, st, fr):
        """DataArray / Subscript element access -> place, or None."""
        q = n[3] or ""
        m = re.match(r"^(DataArray([1-4])D|Subscript)<.*>::operator(\(\)|\[\])$", q)
        if m and not self.raw_arrays:
            args = n[4]
            base = self.obj_place(args[0], st, fr)
            idx = tuple(self.as_num(self.ev(a, st, fr)) for a in args[1:])
            if base[0] == "PHI":
                return self.index_place(("ptr", base), idx)
            r = ("E", base[1], base[2] + idx) if base[0] == "E" and m.group(1) == "Subscript" else ("E", base, idx)
            self.inside(r, st, n)
            return r
        if q.startswith("std::vector<") and q.endswith("::operator[]"):
            base = self.obj_place(n[4][0], st, fr)
            i = self.as_num(self.ev(n[4][1], st, fr))
            return ("E", base, (i,))
        if q.startswith("std::basic_string<") and q.endswith("::operator[]"):
            base = self.obj_place(n[4][0], st, fr)
            i = self.as_num(self.ev(n[4][1], st, fr))
            return ("E", base, (i,))
        return None

    def obj_place(self, n, st, fr):
        """place of the object denoted by a class-typed expression, or pointed to by a pointer expression."""
        k = n[0]
        if k == "this":
            return fr.this
        if k == "var":
            if n[6] == "p":
                return self.to_place(self.ev(n, st, fr))
            return self.var_place(n, fr)
        if k == "mem":
            if n[4] == "p":
                return self.to_place(self.ev(n, st, fr))
            return self.lv(n, st, fr)
        if k == "idx":
            if n[4] == "p":
                return self.to_place(self.ev(n, st, fr))
            return self.lv(n, st, fr)
        if k == "un" and n[2] == "*":
            return self.to_place(self.ev(n[3], st, fr))
        if k == "ocall":
            r = self.arr_access(n, st, fr)
            if r is not None:
                if n[5] == "p":
                    return self.to_place(self.load(st, r, "p"))
                return r
            v = self.ev_ref(n, st, fr)
            if isinstance(v, tuple) and v[0] == "lref":
                return v[1]
            if isinstance(v, tuple) and v[0] in ("ptr", "obj", "phi"):
                return self.to_place(v)
            return self.temp(st, v)
        v = self.ev_ref(n, st, fr)
        if isinstance(v, tuple) and v[0] == "lref":
            return v[1]
        if isinstance(v, tuple) and v[0] in ("ptr", "obj", "phi"):
            return self.to_place(v)
        return self.temp(st, v)

    def e_un(self, n, st, fr):
        op = n[2]
        if op in ("++pre", "++post", "--pre", "--post"):
            p = self.lv(n[3], st, fr)
            old = self.load(st, p, n[4])
            if isinstance(old, tuple) and old[0] == "ptr":
                new = self.ptr_add(old, ONE if op[0] == "+" else neg(ONE))
            else:
                o = self.as_num(old)
                new = add(o, ONE) if op[0] == "+" else sub(o, ONE)
            self.store_to(st, p, new, n)
            return new if op.endswith("pre") else old
        if op == "&":
            p = self.lv(n[3], st, fr)
            if p[0] == "E":
                return ("ptr", p, "elem")
            return ("ptr", p)
        if op == "*":
            p = self.lv(n, st, fr)
            return self.load_obj(st, p) if n[4] == "c" else self.load(st, p, n[4])
        v = self.ev(n[3], st, fr)
        if op == "-":
            return neg(self.as_num(v))
        if op == "+":
            return v
        if op == "!":
            return cnot(self.as_cond(v))
        if op == "~":
            return atom(("bnot", self.as_num(v)))
        return ("opq", ("un", op, v))

    def ptr_add(self, v, k):
        if v[0] == "phi":
            return vphi(v[1], self.ptr_add(v[2], k), self.ptr_add(v[3], k))
        p = v[1]
        if p[0] == "E" and p[2]:
            return ("ptr", ("E", p[1], p[2][:-1] + (add(p[2][-1], k),)), "elem")
        if p[0] == "E":
            return ("ptr", ("E", p[1], (k,)), "elem")
        return ("ptr", ("E", p, (k,)), "elem")

    def e_bin(self, n, st, fr):
        op = n[2]
        if op in ("&&", "||"):
            a = self.as_cond(self.ev(n[3], st, fr))
            t = self.truth(st, a)
            if t is not None:
                a = T if t else F
            if (op == "&&" and a == F) or (op == "||" and a == T):
                return a
            if a in (T, F):
                return self.as_cond(self.ev(n[4], st, fr))
            s1 = st.fork()
            s1.assume(a if op == "&&" else cnot(a))
            tr = s1.trace
            b = self.as_cond(self.ev(n[4], s1, fr))
            if s1.trace is not tr or s1.dead or any(s1.store.get(k) is not v for k, v in st.store.items()) :
                s2 = st.fork()
                s2.assume(cnot(a) if op == "&&" else a)
                m = self.merge(a if op == "&&" else cnot(a), s1, s2)
                m.path = st.path
                st.become(m)
            return cand(a, b) if op == "&&" else cor(a, b)
        if op == ",":
            self.ev(n[3], st, fr)
            return self.ev(n[4], st, fr)
        a = self.ev(n[3], st, fr)
        b = self.ev(n[4], st, fr)
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        tc, ltc = n[5], n[6]
        if op in ("==", "!="):
            r = self.val_eq(a, b)
            return r if op == "==" else cnot(r)
        pa = isinstance(a, tuple) and a[0] in ("ptr", "phi") and not isinstance(a, Poly)
        if op in ("<", ">", "<=", ">="):
            return cmpc(op, self.as_num(a), self.as_num(b))
        if op in ("+", "-") and isinstance(a, tuple) and a[0] in ("ptr", "phi") and isinstance(b, Poly) and tc == "p":
            return self.ptr_add(a, b if op == "+" else neg(b))
        if op == "+" and isinstance(b, tuple) and b[0] in ("ptr", "phi") and isinstance(a, Poly) and tc == "p":
            return self.ptr_add(b, a)
        x, y = self.as_num(a), self.as_num(b)
        if op == "+":
            return add(x, y)
        if op == "-":
            return sub(x, y)
        if op == "*":
            return mul(x, y)
        if op == "/":
            if tc == "i":
                return idiv(x, y)
            return div(x, y)
        if op == "%":
            return imod(x, y)
        if op in ("&", "|", "^"):
            if x.is_const() and y.is_const():
                i, j = int(x.const()), int(y.const())
                return num(i & j if op == "&" else i | j if op == "|" else i ^ j)
            return atom(("bit" + op, x, y))
        if op in ("<<", ">>"):
            if y.is_const() and op == "<<":
                return scale(x, 2 ** int(y.const()))
            if x.is_const() and y.is_const() and x.const() >= 0:
                return num(int(x.const()) >> int(y.const()))
            return atom(("sh" + op, x, y))
        return atom(("binop", op, x, y))

    def val_eq(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return eq0(sub(a, b))
        if a == b:
            return T
        if isinstance(a, tuple) and a and a[0] == "phi":
            x, y = self.val_eq(a[2], b), self.val_eq(a[3], b)
            return cor(cand(a[1], x), cand(cnot(a[1]), y))
        if isinstance(b, tuple) and b and b[0] == "phi":
            return self.val_eq(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "str" and b[0] == "str":
                return F
            if b[0] == "null":
                return cnot(self.as_cond(a))
            if a[0] == "null":
                return cnot(self.as_cond(b))
            ca = a[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b")
            cb = b[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b")
            if ca and cb:
                return cor(cand(a, b), cand(cnot(a), cnot(b)))
        if isinstance(a, Poly) != isinstance(b, Poly):
            ca = isinstance(a, tuple) and a[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b")
            cb = isinstance(b, tuple) and b[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b")
            if ca or cb:
                return eq0(sub(self.as_num(a), self.as_num(b)))
        x, y = sorted((a, b), key=termkey)
        return ("b", ("eqv", x, y))

    def e_asg(self, n, st, fr):
        op, l, r, tc = n[2], n[3], n[4], n[5]
        if op == "=":
            v = self.ev(r, st, fr)
            if st.dead:
                return v
            p = self.lv(l, st, fr)
            if tc == "b":
                v = self.as_cond(v)
            elif tc in ("i", "f"):
                v = self.as_num(v)
            if tc == "c":
                self.copy_object(st, v, p)
                return ("obj", p)
            self.store_to(st, p, v, n)
            return v
        v = self.ev(r, st, fr)
        p = self.lv(l, st, fr)
        old = self.load(st, p, tc)
        nn = ["bin", n[1], op[:-1], l, r, tc, tc]
        new = self.binop(op[:-1], old, v, nn)
        if op == "<<=" and isinstance(new, Poly) and new.is_const() and self.place_types.get(p) == "unsigned int":
            new = num(int(new.const()) % 2 ** 32)
        self.store_to(st, p, new, n)
        return new

    def copy_object(self, st, v, dst):
        if isinstance(v, tuple) and v[0] == "obj":
            src = v[1]
            if src in st.store and src != dst:
                self.store_to(st, dst, st.store[src])
                return
            ch = st.store.get(("ARR", src))
            if ch is None:
                ch = self.chain(st, src)
            self.set_chain(st, dst, ch)
            pre = {}
            for k, x in list(st.store.items()):
                q = k[1] if k[0] == "ARR" else k
                r = rebase(q, src, dst)
                if r is not None:
                    pre[("ARR", r) if k[0] == "ARR" else r] = x
            for k, x in pre.items():
                st.store[k] = x
            self.copy_fields(st, src, dst)
            for L in self.loops:
                L.modified.add(dst)
        else:
            st.store[dst] = v

    def copy_fields(self, st, src, dst, cls=None, depth=0):
        cls = cls or (self.dynclass(src) if self.dynclass else None) or self.place_class(src)
        c = self.prog.classes.get(cls) if cls else None
        if c is None or depth > 2:
            return
        for b in c["bases"]:
            self.copy_fields(st, src, dst, b, depth + 1)
        for q, t, ln, ini in c["fields"]:
            s, d = ("F", src, q), ("F", dst, q)
            sc = scalar_code(t)
            if sc in ("i", "f", "b", "p"):
                st.store[d] = self.load(st, s, sc)
            elif CLS_ARR.match(t):
                st.store[("ARR", d)] = self.chain(st, s)

    place_types = {}

    def place_class(self, p):
        t = self.place_types.get(p)
        if t is None and p[0] == "F":
            t = self.prog.fields.get(p[2])
        if t is None and p[0] == "D" and p[1][0] == "F":
            t = self.prog.fields.get(p[1][2])
        if t is None and p[0] == "E":
            t = self.array_type(p[1])
            if t:
                m = re.match(r".*?<(.*)>", t)
                t = m.group(1) if m else t
        return base_type(t) if t else None

    def e_cond(self, n, st, fr):
        c = self.as_cond(self.ev(n[2], st, fr))
        t = self.truth(st, c)
        if t is True:
            return self.ev(n[3], st, fr)
        if t is False:
            return self.ev(n[4], st, fr)
        c = csimplify(c, st.facts)
        s1, s2 = st.fork(), st.fork()
        s1.assume(c)
        s2.assume(cnot(c))
        a = self.ev(n[3], s1, fr)
        b = self.ev(n[4], s2, fr)
        p = st.path
        m = self.merge(c, s1, s2)
        m.path = p if not (s1.dead or s2.dead) else m.path
        st.become(m)
        return vphi(c, a, b)

    def e_cast(self, n, st, fr):
        k = n[2]
        v = self.ev(n[3], st, fr)
        if k == "i2f":
            return self.as_num(v)
        if k == "f2i":
            x = self.as_num(v)
            c = x.const()
            if c is not None:
                q = abs(c.numerator) // c.denominator
                return num(q if c >= 0 else -q)
            if self.is_integer_poly(x):
                return x
            return atom(("f2i", x))
        if k == "2b":
            return self.as_cond(v)
        if k == "dyn":
            return self.dyncast(v, n[4])
        return v

    def is_integer_poly(self, x):
        return False

    def dyncast(self, v, t):
        if isinstance(v, tuple) and v[0] == "ptr" and self.dynclass:
            c = self.dynclass(v[1])
            want = base_type(t)
            if c:
                return v if (c == want or want in self.prog.bases(c)) else ("null",)
        return v

    def e_throw(self, n, st, fr):
        self.throws.append((st.path, self.where(n), n, tuple(f.fn.qual for f in self.stack)))
        st.event("throw", self.where(n))
        st.dead = True
        return ("opq", ("throw",))

    def e_new(self, n, st, fr):
        t, ini, size, isarr = n[2], n[3], n[4], n[5]
        h = ("H", self.new_uid(), t)
        self.place_types[h] = t
        if isarr:
            sz = self.as_num(self.ev(size, st, fr)) if size else None
            self.set_chain(st, h, Chain("havoc"))
            st.event("newarr", h, sz, self.where(n))
            return ("ptr", ("E", h, ()))
        st.event("new", h, t, self.where(n))
        if ini is not None and ini[0] == "ctor":
            self.construct(st, fr, h, ini)
        elif ini is not None and ini[0] == "copy":
            self.copy_object(st, self.ev(ini[3], st, fr), h)
        elif ini is not None:
            st.store[h] = self.ev(ini, st, fr)
        return ("ptr", h)

    def e_delete(self, n, st, fr):
        v = self.ev(n[3], st, fr)
        st.event("delete", v, n[2], self.where(n))
        return ("opq", ("void",))

    def e_init(self, n, st, fr):
        return ("initlist", tuple(self.ev(x, st, fr) for x in n[2]))

    def e_copy(self, n, st, fr):
        return self.ev(n[3], st, fr)

    def e_ctor(self, n, st, fr):
        cls = n[2]
        if cls.startswith("std::basic_string<"):
            args = [a for a in n[4]]
            if not args:
                return ("str", "")
            if len(args) >= 1:
                v = self.ev(args[0], st, fr)
                return v
        p = ("T", self.new_uid())
        self.place_types[p] = cls
        self.construct(st, fr, p, n)
        return ("obj", p)

    def construct(self, st, fr, place, n):
        cls, key, args = n[2], n[3], n[4]
        self.place_types[place] = cls
        if self.call_hook:
            r = self.call_hook(self, st, fr, n, key, cls + "::ctor", place, args)
            if r is not NotImplemented:
                return
        if CLS_ARR.match(cls) and not self.raw_arrays:
            vals = [self.ev(a, st, fr) for a in args]
            self.set_chain(st, place, Chain("fill", None, ZERO) if True else None)
            for i, v in enumerate(vals):
                st.store[("EXT", place, i)] = v
            return
        f = self.prog.fns.get(key)
        if f is None or not self.inline(f):
            for a in args:
                self.ev(a, st, fr)
            if f is None and cls in self.prog.classes and not args:
                # implicit default constructor
                for b in self.prog.classes[cls]["bases"]:
                    pass
            st.event("ctor", place, cls, self.where(n))
            return
        self.invoke(f, place, args, st, fr, n)

    # ------------------------------------------------------------------ calls
    def e_call(self, n, st, fr):
        key, qual, args = n[2], n[3], n[4]
        if not isinstance(qual, str):
            for a in args:
                self.ev(a, st, fr)
            self.note("indirect call", n)
            return ("opq", ("icall", self.new_uid()))
        if self.call_hook:
            r = self.call_hook(self, st, fr, n, key, qual, None, args)
            if r is not NotImplemented:
                return r
        short = qual[5:] if qual.startswith("std::") else qual
        if short in ("sin", "cos", "tan", "sqrt", "exp", "log", "pow", "fabs", "abs", "tanh", "sinh", "cosh", "atan", "asin", "acos", "atan2", "floor", "ceil", "fmod"):
            vs = [self.as_num(self.ev(a, st, fr)) for a in args]
            return fn(short, *vs)
        f = self.prog.fns.get(key)
        if f is not None and self.inline(f) and len(self.stack) < self.maxdepth:
            return self.invoke(f, None, args, st, fr, n)
        return self.opaque_call(n, key, qual, None, args, st, fr, n[5])

    def e_mcall(self, n, st, fr):
        key, qual, obj, args, virt = n[2], n[3], n[4], n[5], n[6]
        if qual is None:
            self.note("member pointer call", n)
            return ("opq", ("icall", self.new_uid()))
        place = self.obj_place(obj, st, fr)
        if self.call_hook:
            r = self.call_hook(self, st, fr, n, key, qual, place, args)
            if r is not NotImplemented:
                return r
        r = self.std_method(n, qual, place, args, st, fr)
        if r is not NotImplemented:
            return r
        f = self.prog.fns.get(key)
        if virt:
            cls = self.dynclass(place) if self.dynclass else None
            if cls is None and place in self.place_types:
                cls = base_type(self.place_types[place])
            if cls:
                f = self.prog.resolve_virtual(key, cls)
            elif self.prog.all_overriders(key):
                f = None
        if f is not None and self.inline(f) and len(self.stack) < self.maxdepth:
            return self.invoke(f, place, args, st, fr, n)
        return self.opaque_call(n, key, qual, place, args, st, fr, n[7])

    def e_lambda(self, n, st, fr):
        """the variables it captures keep their places (a copy gets one of its own)."""
        env = {}
        for vid, ref, name, code, ini in n[3]:
            if ref:
                env[vid] = self.var_place(["var", n[1], vid, name, "l", None, code], fr)
                continue
            self.uid += 1
            p = ("L", self.uid, vid, name)
            v = self.ev(ini if ini is not None else ["var", n[1], vid, name, "l", None, code], st, fr)
            if isinstance(v, tuple) and v[0] == "obj":
                env[vid] = self.var_place(["var", n[1], vid, name, "l", None, code], fr) if ini is None else v[1]
                continue
            st.store[p] = v
            env[vid] = p
        self.lams[n[2]] = (env, fr.this)
        return ("opq", ("lambda", n[2]))

    def e_ocall(self, n, st, fr):
        key, qual, args = n[2], n[3], n[4]
        f = self.prog.fns.get(key)
        if f is not None and f.lam and key in self.lams and len(self.stack) < self.maxdepth:
            env, this = self.lams[key]
            return self.invoke(f, this, args[1:], st, fr, n, env)
        r = self.arr_access(n, st, fr)
        if r is not None:
            if n[5] == "c":
                return self.load_obj(st, r) if not (n[3] or "").startswith(("DataArray", "Subscript")) or r in st.store else ("obj", r)
            if n[5] == "p" and (self.array_is_sub(n, r)):
                return ("ptr", r)
            return self.load(st, r, n[5])
        if qual is None:
            return ("opq", ("icall", self.new_uid()))
        if self.call_hook:
            r = self.call_hook(self, st, fr, n, key, qual, None, args)
            if r is not NotImplemented:
                return r
        op = qual.split("operator")[-1]
        if qual.startswith("std::") or qual.startswith("__gnu_cxx::"):
            if op in ("==", "!=") and len(args) == 2:
                a, b = self.ev(args[0], st, fr), self.ev(args[1], st, fr)
                r = self.val_eq(self.strval(a), self.strval(b))
                return r if op == "==" else cnot(r)
            if op == "=" and len(args) == 2:
                v = self.ev(args[1], st, fr)
                p = self.obj_place(args[0], st, fr)
                if isinstance(v, tuple) and v[0] == "obj":
                    self.copy_object(st, v, p)
                else:
                    self.store_to(st, p, v, n)
                return ("obj", p)
        if re.match(r"^DataStruct<.*>::operator=$", qual) and not self.raw_arrays:
            v = self.ev(args[1], st, fr)
            p = self.obj_place(args[0], st, fr)
            self.store_to(st, ("DS", p), v, n)
            return ("obj", p)
        if re.match(r"^DataArray[1-4]D<.*>::operator=$", qual) and not self.raw_arrays:
            v = self.ev(args[1], st, fr)
            p = self.obj_place(args[0], st, fr)
            self.copy_object(st, v, p)
            st.event("arrcopy", p, v, self.where(n))
            return ("obj", p)
        f = self.prog.fns.get(key)
        if f is None and op == "=" and len(args) == 2:
            v = self.ev(args[1], st, fr)
            p = self.obj_place(args[0], st, fr)
            self.copy_object(st, v, p)
            return ("obj", p)
        if f is not None and self.inline(f) and len(self.stack) < self.maxdepth:
            if f.cls and not f.static:
                place = self.obj_place(args[0], st, fr)
                return self.invoke(f, place, args[1:], st, fr, n)
            return self.invoke(f, None, args, st, fr, n)
        return self.opaque_call(n, key, qual, None, args, st, fr, n[5])

    def strval(self, v):
        return v

    def array_is_sub(self, n, r):
        q = n[3] or ""
        m = re.match(r"^DataArray([1-4])D<", q)
        return False

    def std_method(self, n, qual, place, args, st, fr):
        """DataArray, DataStruct and standard containers."""
        m = re.match(r"^(DataArray([1-4])D|DataStruct|Subscript|DataChunk)<?.*>?::(.*)$", qual)
        if m and not self.raw_arrays:
            kind, rank, meth = m.group(1), m.group(2), m.group(3)
            if kind == "DataStruct":
                if meth.startswith("operator "):
                    t = meth[9:]
                    return self.load(st, ("DS", place), scalar_code(t))
                if meth == "IsAttached":
                    return ("b", ("attached", place))
                return NotImplemented
            if meth.startswith("operator ") and meth.endswith("*"):
                if place[0] == "PHI":
                    return ("phi", place[1], ("ptr", place[2] if kind == "Subscript" else ("E", place[2], ())), ("ptr", place[3] if kind == "Subscript" else ("E", place[3], ())))
                if kind == "Subscript":
                    return ("ptr", place)
                return ("ptr", ("E", place, ()))
            if meth in ("GetRows", "GetColumns", "GetSubColumns", "GetSize"):
                if meth == "GetSize":
                    if not args:
                        d = 0
                    else:
                        dv = self.as_num(self.ev(args[0], st, fr)).const()
                        if dv is None:
                            return atom(("extent", place, "?"))
                        d = int(dv)
                else:
                    d = {"GetRows": 0, "GetColumns": 1, "GetSubColumns": 2}[meth]
                v = st.store.get(("EXT", place, d))
                return v if v is not None else atom(("extent", place, num(d)))
            if meth in ("Allocate", "SetSize"):
                vs = [self.ev(a, st, fr) for a in args]
                for i, v in enumerate(vs):
                    if isinstance(v, Poly):
                        st.store[("EXT", place, i)] = v
                if meth == "Allocate":
                    self.set_chain(st, place, Chain("fill", None, ZERO))
                st.event("alloc", place, meth, tuple(vs), self.where(n))
                return ("opq", ("void",))
            if meth == "Zero":
                self.set_chain(st, place, Chain("fill", None, ZERO))
                st.event("arrzero", place, self.where(n))
                return ("opq", ("void",))
            if meth == "IsAttached":
                return ("b", ("attached", place))
            return NotImplemented
        if qual == "std::_Bit_reference::operator bool":
            return self.load(st, place, "b")
        if qual.startswith("std::vector<"):
            meth = qual.rsplit("::", 1)[1]
            szp = ("F", place, "$size")
            if meth == "size":
                return self.load(st, szp, "i")
            if meth == "push_back":
                sz = self.load(st, szp, "i")
                v = self.ev(args[0], st, fr)
                ep = ("E", place, (sz,))
                if isinstance(v, tuple) and v[0] == "obj":
                    self.store_to(st, ep, v, n)
                    if sz.is_const():
                        self.copy_object(st, v, ep)
                else:
                    self.store_to(st, ep, v, n)
                self.store_to(st, szp, add(sz, ONE), n)
                st.event("push", place, v, self.where(n))
                return ("opq", ("void",))
            if meth == "resize":
                vs = [self.ev(a, st, fr) for a in args]
                self.store_to(st, szp, self.as_num(vs[0]), n)
                st.event("resize", place, vs[0], self.where(n))
                return ("opq", ("void",))
            if meth == "clear":
                self.store_to(st, szp, ZERO, n)
                return ("opq", ("void",))
            if meth == "empty":
                return eq0(self.load(st, szp, "i"))
            if meth in ("operator[]", "at", "front", "back"):
                if meth == "front":
                    i = ZERO
                elif meth == "back":
                    i = sub(self.load(st, szp, "i"), ONE)
                else:
                    i = self.as_num(self.ev(args[0], st, fr))
                p = ("E", place, (i,))
                if n[7] == "p":
                    return self.load(st, p, "p")
                if n[7] in ("c", "a"):
                    return ("obj", p)
                return self.load(st, p, n[7])
            return NotImplemented
        if qual.startswith("std::basic_string<"):
            meth = qual.rsplit("::", 1)[1]
            v = st.store.get(place)
            if meth == "c_str":
                return v if v is not None else ("opq", ("in", place))
            if meth in ("length", "size"):
                if v is not None and v[0] == "str":
                    return num(len(v[1]))
                return atom(("strlen", v if v is not None else place))
            return NotImplemented
        return NotImplemented

    def opaque_call(self, n, key, qual, place, args, st, fr, tc):
        vals = []
        f = self.prog.fns.get(key)
        ptypes = [p[2] for p in f.params] if f is not None else None
        for i, a in enumerate(args):
            if ptypes and i < len(ptypes) and is_ref(ptypes[i]) and not ptypes[i].startswith("const "):
                p = self.lv(a, st, fr)
                vals.append(("ref", p))
            else:
                vals.append(self.ev(a, st, fr))
        self.opaque_calls.setdefault(qual, []).append(self.where(n))
        uid = self.new_uid()
        st.event("call", qual, place, tuple(vals), self.where(n), uid)
        for i, v in enumerate(vals):
            if isinstance(v, tuple) and v[0] == "ref":
                self.havoc(st, v[1], uid, i)
            elif isinstance(v, tuple) and v[0] == "ptr" and (ptypes is None or (i < len(ptypes) and not ptypes[i].startswith("const "))):
                p = v[1]
                if qual.startswith("std::") or key in ("strcmp", "strlen", "fprintf", "printf"):
                    continue
                if p[0] == "E":
                    self.set_chain(st, p[1], Chain("havoc"))
                elif p[0] in ("L", "T", "F"):
                    self.havoc(st, p, uid, i)
        if tc == "v":
            return ("opq", ("void",))
        return opaque_value(("ret", uid, qual), tc)

    def havoc(self, st, p, uid, i):
        if p[0] == "E":
            old = None
            st.store[("ARR", p[1])] = Chain("def", self.chain(st, p[1]), p[2], atom(("out", uid, i)))
            for L in self.loops:
                L.written.add(p[1])
            return
        old = st.store.get(p)
        if ("ARR", p) in st.store:
            self.set_chain(st, p, Chain("havoc"))
        if isinstance(old, tuple) and old and old[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
            nv = ("b", ("out", uid, i))
        elif isinstance(old, tuple) and old and old[0] in ("ptr", "null"):
            nv = ("ptr", ("D", ("out", uid, i)))
        elif isinstance(old, tuple) and old and old[0] in ("str", "opq"):
            nv = ("opq", ("out", uid, i))
        elif old is None and self.place_types.get(p) and scalar_code(self.place_types[p]) == "c":
            return
        else:
            nv = atom(("out", uid, i))
        st.store[p] = nv
        for L in self.loops:
            L.modified.add(p)

    def bind(self, f, args, st, fr, nf):
        for i, prm in enumerate(f.params):
            pid, name, t = prm
            if i >= len(args):
                continue
            a = args[i]
            if is_ref(t):
                if a is None:
                    continue
                nf.env[pid] = self.ref_place(a, t, st, fr)
            else:
                p = ("L", nf.uid, pid, name)
                nf.env[pid] = p
                self.place_types[p] = t
                v = self.ev(a, st, fr)
                sc = scalar_code(t)
                if sc == "c":
                    self.copy_object(st, v, p)
                else:
                    if sc == "b":
                        v = self.as_cond(v)
                    elif sc in ("i", "f"):
                        v = self.as_num(v)
                    st.store[p] = v

    def ref_place(self, a, t, st, fr):
        if isinstance(a, tuple) and a and a[0] == "PLACE":
            return a[1]
        k = a[0]
        if k in ("var", "mem", "idx") or (k == "un" and a[2] == "*"):
            if k == "var" and a[5] is not None and a[4] == "g":
                return self.temp(st, self.ev(a, st, fr))
            return self.lv(a, st, fr)
        if k in ("ocall", "call", "mcall", "cond", "asg", "cast", "un"):
            return self.lv(a, st, fr)
        v = self.ev(a, st, fr)
        if isinstance(v, tuple) and v[0] == "obj":
            return v[1]
        return self.temp(st, v)

    def invoke(self, f, this, args, st, fr, n, env=None):
        """interpret f's body in place."""
        self.uid += 1
        nf = Frame(f, this, self.uid)
        if env:
            nf.env.update(env)
        self.fnlog.add(f.key)
        self.bind(f, args, st, fr, nf)
        if st.dead:
            return ("opq", ("dead",))
        if sum(1 for x in self.stack if x.fn is f) > 3:
            self.note("recursion " + f.qual, n)
            return opaque_value(("rec", self.uid), scalar_code(f.ret) if f.ret != "void" else "v")
        self.stack.append(nf)
        try:
            if f.kind == "ctor":
                for it in f.inits:
                    if it[0] == "f":
                        self.init_field(st, nf, ("F", this, it[1]), it[2], it[1])
                    elif it[2] is not None and it[2][0] == "ctor":
                        bf = self.prog.fns.get(it[2][3])
                        if bf is not None and self.inline(bf):
                            self.invoke(bf, this, it[2][4], st, nf, it[2])
            out = self.exec_block([f.body], st, nf)
        finally:
            self.stack.pop()
        N, R = out.get("N"), out.get("R")
        if N is not None and N[1].dead:
            N = None
        if R is None and N is None:
            st.dead = True
            return ("opq", ("dead",))
        if R is None:
            st.become(N[1])
            return ("opq", ("void",))
        rv = ("RET", nf.uid)
        if N is None:
            s = R[1]
        else:
            if rv not in N[1].store:
                N[1].store[rv] = R[1].store.get(rv, ("opq", ("void",)))
            s = self.merge(R[0], R[1], N[1])
        st.become(s)
        v = st.store.pop(rv, ("opq", ("void",)))
        return v

    def init_field(self, st, fr, place, ini, q):
        t = self.prog.fields.get(q, "")
        if is_ref(t):
            st.store[("REF", place)] = self.ref_place(ini, t, st, fr)
            return
        if ini is None:
            return
        if ini[0] == "ctor" and scalar_code(t) == "c" and not ini[2].startswith("std::basic_string"):
            self.construct(st, fr, place, ini)
            return
        v = self.ev(ini, st, fr)
        sc = scalar_code(t)
        if sc == "c" and isinstance(v, tuple) and v[0] == "obj":
            self.copy_object(st, v, place)
            return
        if sc == "b":
            v = self.as_cond(v)
        elif sc in ("i", "f"):
            v = self.as_num(v)
        st.store[place] = v

    # ------------------------------------------------------------------ statements
    # outcome: dict kind -> (guard cond, State); kinds N (falls through), R (return), B (break), C (continue)
    def exec_block(self, stmts, st, fr):
        outs = {}
        cur = st
        guard = T
        for s in stmts:
            if cur is None or cur.dead:
                break
            o = self.exec(s, cur, fr)
            nN = None
            for k, (g, x) in o.items():
                if x is None or x.dead:
                    continue
                g2 = cand(guard, g)
                if k == "N":
                    nN = (g2, x)
                else:
                    outs[k] = self.join_out(outs.get(k), (g2, x))
            if nN is None:
                cur = None
                break
            guard, cur = nN
        if cur is not None and not cur.dead:
            outs["N"] = self.join_out(outs.get("N"), (guard, cur))
        return outs

    def join_out(self, a, b):
        if a is None:
            return b
        g = a[0]
        s = self.merge(g, a[1], b[1])
        return (cor(a[0], b[0]), s)

    def exec(self, n, st, fr):
        if n is None:
            return {"N": (T, st)}
        k = n[0]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st, fr)
        self.ev(n, st, fr)
        return {"N": (T, st)}

    def s_block(self, n, st, fr):
        return self.exec_block(n[2], st, fr)

    def s_decls(self, n, st, fr):
        for d in n[2]:
            self.s_decl(d, st, fr)
        return {"N": (T, st)}

    def s_ostmt(self, n, st, fr):
        raise AnalysisBroken("statement %s at %s:%d is not modelled" % ((n[2],) + self.where(n)[:2]))

    def s_nop(self, n, st, fr):
        return {"N": (T, st)}

    def s_label(self, n, st, fr):
        return self.exec(n[2], st, fr)

    def s_decl(self, n, st, fr):
        vid, name, t, ini, static, cv = n[2], n[3], n[4], n[5], n[6], n[7]
        if is_ref(t):
            if ini is not None:
                fr.env[vid] = self.ref_place(ini, t, st, fr)
            return {"N": (T, st)}
        if static:
            p = ("G", fr.fn.qual + "::" + name)
            fr.env[vid] = p
            if ini is not None and p not in st.store and t.startswith("const"):
                self.declare(p, t, ini, st, fr)
            return {"N": (T, st)}
        p = ("L", fr.uid, vid, name)
        fr.env[vid] = p
        self.declare(p, t, ini, st, fr)
        return {"N": (T, st)}

    def declare(self, p, t, ini, st, fr):
        self.place_types[p] = t
        st.store.pop(p, None)
        for L in self.loops:
            L.local.add(p)
        sc = scalar_code(t)
        if sc == "a":
            self.arrays = self.arrays if self.arrays is not Interp.arrays else set(Interp.arrays)
            self.arrays.add(p)
            self.ranks = self.ranks if self.ranks is not Interp.ranks else {}
            self.ranks[p] = t.count("[")
            self.note_extents(st, p, t)
            ch = Chain("havoc")
            if ini is not None:
                ch = Chain("fill", None, ZERO)

                def fill(x, idx):
                    nonlocal ch
                    if x[0] == "init":
                        for i, y in enumerate(x[2]):
                            fill(y, idx + (num(i),))
                    elif x[0] == "str":
                        st.store[p] = ("str", x[2])
                    elif x[0] in ("ctor", "zero") and x[0] == "ctor":
                        pass
                    else:
                        ch = Chain("def", ch, idx, self.ev(x, st, fr))
                if ini[0] != "ctor":
                    fill(ini, ())
            self.set_chain(st, p, ch)
            return
        if ini is None:
            if sc in ("i", "f"):
                st.store[p] = atom(("uninit", p))
            elif sc == "b":
                st.store[p] = ("b", ("uninit", p))
            elif sc == "p":
                st.store[p] = ("ptr", ("D", ("uninit", p)))
            return
        if sc == "c":
            if ini[0] == "ctor" and not ini[2].startswith("std::basic_string<"):
                if t.startswith("std::vector<") or "vector<" in t:
                    st.store[("F", p, "$size")] = ZERO
                    vals = [self.ev(a, st, fr) for a in ini[4]]
                    if vals and isinstance(vals[0], Poly):
                        st.store[("F", p, "$size")] = vals[0]
                    self.set_chain(st, p, Chain("fill", None, vals[1] if len(vals) > 1 else ZERO))
                    return
                self.construct(st, fr, p, ini)
                return
            v = self.ev(ini, st, fr)
            self.copy_object(st, v, p)
            return
        v = self.ev(ini, st, fr)
        if sc == "b":
            v = self.as_cond(v)
        elif sc in ("i", "f"):
            v = self.as_num(v)
        st.store[p] = v

    def note_extents(self, st, p, t):
        for i, d in enumerate(re.findall(r"\[(\d+)\]", t)):
            st.store[("EXT", p, i)] = num(int(d))

    def s_if(self, n, st, fr):
        c = self.as_cond(self.ev(n[2], st, fr))
        if st.dead:
            return {}
        t = self.truth(st, c)
        if t is True:
            return self.exec(n[3], st, fr)
        if t is False:
            return self.exec(n[4], st, fr)
        c = csimplify(c, st.facts)
        s1, s2 = st, st.fork()
        path = st.path
        facts0 = dict(st.facts)
        s1.assume(c)
        s2.assume(cnot(c))
        o1 = self.exec(n[3], s1, fr)
        o2 = self.exec(n[4], s2, fr)
        outs = {}
        for k in set(o1) | set(o2):
            a, b = o1.get(k), o2.get(k)
            if a is not None and a[1].dead:
                a = None
            if b is not None and b[1].dead:
                b = None
            if a is None and b is None:
                continue
            if a is None:
                outs[k] = (cand(cnot(c), b[0]), b[1])
            elif b is None:
                outs[k] = (cand(c, a[0]), a[1])
            else:
                outs[k] = (cor(cand(c, a[0]), cand(cnot(c), b[0])), self.merge(c, a[1], b[1]))
                if a[0] == T and b[0] == T:
                    outs[k] = (T, outs[k][1])
        # a single surviving outcome is certain apart from throws
        if len(outs) == 1:
            k = next(iter(outs))
            outs[k] = (T, outs[k][1])
        return outs

    def s_return(self, n, st, fr):
        if n[2] is not None:
            if is_ref(fr.fn.ret):
                p = self.ref_place(n[2], fr.fn.ret, st, fr)
                rt = base_type(fr.fn.ret)
                v = ("lref", p)
                v = ("obj", p) if scalar_code(rt) == "c" else ("lref", p)
            else:
                v = self.ev(n[2], st, fr)
                sc = scalar_code(fr.fn.ret)
                if sc == "b":
                    v = self.as_cond(v)
                elif sc in ("i", "f"):
                    v = self.as_num(v)
            if st.dead:
                return {}
            st.store[("RET", fr.uid)] = v
        return {"R": (T, st)}

    def s_break(self, n, st, fr):
        return {"B": (T, st)}

    def s_continue(self, n, st, fr):
        return {"C": (T, st)}

    def s_goto(self, n, st, fr):
        self.note("goto", n)
        return {"N": (T, st)}

    def s_try(self, n, st, fr):
        return self.exec(n[2], st, fr)

    def s_switch(self, n, st, fr):
        v = self.ev(n[2], st, fr)
        v = self.as_num(v)
        body = n[3][2] if n[3][0] == "block" else [n[3]]
        # flatten labels
        items = []

        def lab(s):
            if s[0] == "case":
                items.append(("case", s[2]))
                lab(s[3])
            elif s[0] == "default":
                items.append(("default",))
                lab(s[2])
            else:
                items.append(("stmt", s))
        for s in body:
            lab(s)
        cases = []
        for i, it in enumerate(items):
            if it[0] == "case":
                cases.append((eq0(sub(v, self.as_num(self.ev(it[1], st, fr)))), i))
        dflt = [i for i, it in enumerate(items) if it[0] == "default"]

        def run(i, s):
            o = self.exec_block([it[1] for it in items[i:] if it[0] == "stmt"], s, fr)
            r = {}
            for k, x in o.items():
                k2 = "N" if k == "B" else k
                r[k2] = self.join_out(r.get(k2), x)
            return r

        def chainsel(j, s):
            if j == len(cases):
                return run(dflt[0], s) if dflt else {"N": (T, s)}
            c, i = cases[j]
            t = self.truth(s, c)
            if t is True:
                return run(i, s)
            if t is False:
                return chainsel(j + 1, s)
            s2 = s.fork()
            s.assume(c)
            s2.assume(cnot(c))
            o1 = run(i, s)
            o2 = chainsel(j + 1, s2)
            outs = {}
            for k in set(o1) | set(o2):
                a, b = o1.get(k), o2.get(k)
                if a is None:
                    outs[k] = (cand(cnot(c), b[0]), b[1])
                elif b is None:
                    outs[k] = (cand(c, a[0]), a[1])
                else:
                    outs[k] = (T if a[0] == T and b[0] == T else cor(cand(c, a[0]), cand(cnot(c), b[0])), self.merge(c, a[1], b[1]))
            return outs
        return chainsel(0, st)

    # ------------------------------------------------------------------ loops
    def s_for(self, n, st, fr):
        if n[2] is not None:
            self.exec(n[2], st, fr)
        return self.loop(n, n[3], n[4], n[5], st, fr)

    def s_while(self, n, st, fr):
        return self.loop(n, n[2], None, n[3], st, fr)

    def s_do(self, n, st, fr):
        return self.loop(n, None, None, n[2], st, fr, post=n[3])

    def s_frange(self, n, st, fr):
        self.note("range for", n)
        return {"N": (T, st)}

    def loop(self, n, cond, inc, body, st, fr, post=None):
        # an exit tested first of all is the condition
        if post is None and (cond is None or cond[0] in ("bool", "int") and cond[2]):
            head, rest = body, []
            while head is not None and head[0] == "block" and head[2]:
                head, rest = head[2][0], list(head[2][1:]) + rest
            if head is not None and head[0] == "if" and head[4] is None and brk(head[3]):
                cond, body = ["un", head[1], "!", head[2]], ["block", body[1], rest]
        # 1. constant trip count: interpret iteration by iteration (constant propagation)
        r = self.try_unroll(n, cond, inc, body, st, fr, post)
        if r is not None:
            return r
        if self.peel:
            return self.peel_loop(n, cond, inc, body, st, fr, post)
        return self.summarise(n, cond, inc, body, st, fr, post)

    def peel_loop(self, n, cond, inc, body, st, fr, post):
        """the first iterations one by one; states that would go on are kept in self.residual."""
        outs = {}

        def put(k, g, s):
            outs[k] = self.join_out(outs.get(k), (g, s))
        cur, guard, k, und = st, T, 0, 0
        while cur is not None and not cur.dead:
            if cond is not None and not (post is not None and k == 0):
                c = self.as_cond(self.ev(cond, cur, fr))
                if cur.dead:
                    cur = None
                    break
                t = self.truth(cur, c)
                if t is False:
                    put("N", guard, cur)
                    break
                if und:
                    und += 1
                if t is None:
                    und = und or 1
                    c = csimplify(c, cur.facts)
                    s2 = cur.fork()
                    s2.assume(cnot(c))
                    put("N", cand(guard, cnot(c)), s2)
                    cur.assume(c)
                    guard = cand(guard, c)
            if und > self.peel or k > 64:
                self.residual.append((guard, cur, self.where(n)))
                break
            self.iter_begin(n, k, cur)
            o = self.exec(body, cur, fr)
            nxt = None
            for kk in ("N", "C"):
                if kk in o and not o[kk][1].dead:
                    nxt = self.join_out(nxt, o[kk])
            for kk in ("R", "B"):
                if kk in o and not o[kk][1].dead:
                    put("N" if kk == "B" else "R", cand(guard, o[kk][0]), o[kk][1])
                    if nxt is not None:
                        und = und or 1
            if nxt is None:
                break
            if cond is None and und:
                und += 1
            guard, cur = cand(guard, nxt[0]), nxt[1]
            if post is not None:
                c = self.as_cond(self.ev(post, cur, fr))
                t = self.truth(cur, c)
                if t is False:
                    put("N", guard, cur)
                    break
                if t is None:
                    und += 1
                    s2 = cur.fork()
                    s2.assume(cnot(c))
                    put("N", cand(guard, cnot(c)), s2)
                    cur.assume(c)
                    guard = cand(guard, c)
            if inc is not None:
                self.ev(inc, cur, fr)
            k += 1
        return outs

    def iter_begin(self, n, k, st):
        pass

    def try_unroll(self, n, cond, inc, body, st, fr, post):
        if cond is None and post is None:
            return None
        if cond is not None:
            probe = st.fork()
            c = self.truth(probe, self.as_cond(self.ev(cond, probe, fr)))
            if c is None:
                return None
            if c is False:
                st.become(probe)
                return {"N": (T, st)}
        # the loop is entered; is the trip count decided by constants?
        cnt = self.const_trip(cond, inc, body, st, fr, post)
        if cnt is None or cnt > self.unroll:
            return None
        outs = {}
        cur = st
        guard = T
        k = 0
        while cur is not None and not cur.dead:
            test = cond if post is None else post if k else None
            c = self.truth(cur, self.as_cond(self.ev(test, cur, fr))) if test is not None else True
            if c is False:
                break
            if c is None or k > self.unroll:
                raise AnalysisBroken("unrolling lost track at %s:%d" % self.where(n)[:2])
            o = self.exec(body, cur, fr)
            nxt = None
            for kk in ("N", "C"):
                if kk in o and not o[kk][1].dead:
                    nxt = self.join_out(nxt, o[kk])
            for kk in ("R", "B"):
                if kk in o and not o[kk][1].dead:
                    g, s = o[kk]
                    key = "N2" if kk == "B" else "R"
                    outs[key] = self.join_out(outs.get(key), (cand(guard, g), s))
            if nxt is None:
                cur = None
                break
            guard = cand(guard, nxt[0])
            cur = nxt[1]
            if inc is not None:
                self.ev(inc, cur, fr)
            k += 1
        res = {}
        if cur is not None and not cur.dead:
            res["N"] = (guard, cur)
        if "N2" in outs:
            res["N"] = self.join_out(res.get("N"), outs["N2"]) if "N" in res else outs["N2"]
        if "R" in outs:
            res["R"] = outs["R"]
        return res

    def const_trip(self, cond, inc, body, st, fr, post=None):
        """trip count when the controlling variable starts at, and runs to, constants; else None."""
        test = post if post is not None else cond
        probe = st.fork()
        steps = []
        if inc is not None:
            q = cond[3] if cond[0] == "un" and cond[2] == "!" else cond
            if q[0] != "bin":
                return None
            a = self.ev(q[3], probe, fr)
            b = self.ev(q[4], probe, fr)
            if not (isinstance(a, Poly) and isinstance(b, Poly) and a.is_const() and b.is_const()):
                return None
            # the body must not assign the control variable
            ctl = [x for x in walk(inc) if x[0] == "var"]
            ids = {x[2] for x in ctl}
            for x in walk(body):
                if assigned(x) in ids:
                    return None
        else:
            steps = self.control_steps(test, body)
            if steps is None:
                return None
        # walk the control variable
        k = 0
        while k <= self.unroll + 1:
            if post is None or k:
                c = self.truth(probe, self.as_cond(self.ev(test, probe, fr)))
                if c is None:
                    return None
                if c is False:
                    return k
            if inc is not None:
                self.ev(inc, probe, fr)
            for x in steps:
                self.ev(x, probe, fr)
            k += 1
        return k

    def control_steps(self, test, body):
        """statements of the body of a while loop, executed once in every iteration, that move the variables its condition reads; None when other statements move them."""
        ids = {x[2] for x in walk(test) if x[0] == "var"}
        if not ids:
            return None
        flat = []

        def put(x):
            if x is not None and x[0] == "block":
                for y in x[2]:
                    put(y)
            elif x is not None:
                flat.append(x)
        put(body)
        while True:
            steps = [y for x in flat for y in always(x) if assigned(y) in ids]
            more = {y[2] for x in steps for y in walk(x) if y[0] == "var"} - ids
            if not more:
                break
            ids |= more
        if any(x[0] == "decl" and x[2] in ids for x in walk(body)):
            return None
        inside = sum(1 for x in walk(body) if assigned(x) in ids)
        if inside != len(steps) or any(y[0] in ("call", "mcall", "new") for x in steps for y in walk(x)):
            return None
        if not steps and not any(assigned(x) in ids for x in walk(test)):
            return None
        if steps and any(x[0] in ("continue", "goto") for x in walk(body)):
            return None
        return steps

    def assigned_vars(self, body, inc, fr):
        """places of locals syntactically assigned inside the loop but declared outside."""
        decl = {x[2] for x in walk(body) if x[0] == "decl"}
        out = set()
        for part in (body, inc):
            if part is None:
                continue
            for x in walk(part):
                t = None
                if x[0] == "asg":
                    t = x[3]
                elif x[0] == "un" and x[2][:2] in ("++", "--"):
                    t = x[3]
                if t is not None and t[0] == "var" and t[2] not in decl and t[4] in ("l", "p"):
                    out.add(self.var_place(t, fr))
                elif t is not None and t[0] == "mem" and t[2][0] == "this":
                    out.add(("F", fr.this, t[3]))
        return out

    def summarise(self, n, cond, inc, body, st, fr, post):
        M = self.assigned_vars(body, inc, fr)
        M = {p for p in M if p[0] != "E"}
        induct = {}
        for attempt in range(6):
            L = LoopInfo(self.new_uid(), n[1], self.where(n))
            res = self.loop_pass(L, n, cond, inc, body, st, fr, post, M, induct)
            if res[0] == "retry":
                M, induct = res[1], res[2]
                continue
            return res[1]
        raise AnalysisBroken("loop summary did not converge at %s:%d" % self.where(n)[:2])

    def loop_pass(self, L, n, cond, inc, body, st, fr, post, M, induct):
        s = st.fork()
        lva = atom(L.lv)
        carried = {}
        for p in M:
            v0 = st.store.get(p)
            if p in induct:
                s.store[p] = add(v0 if isinstance(v0, Poly) else self.init_value(p, "i"), mul(induct[p], lva))
                continue
            if v0 is None:
                v0 = self.init_value(p, self.tcode_of(p))
            if isinstance(v0, Poly):
                s.store[p] = atom(("LC", L.id, p))
            elif isinstance(v0, tuple) and v0[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
                s.store[p] = ("b", ("LC", L.id, p))
            elif isinstance(v0, tuple) and v0[0] in ("ptr", "null", "phi"):
                s.store[p] = ("ptr", ("D", ("LC", L.id, p)))
            else:
                s.store[p] = ("opq", ("LC", L.id, p))
            carried[p] = v0
        # mark arrays
        for k in list(s.store):
            if k[0] == "ARR":
                s.store[k] = Chain("mark", s.store[k], L)
        s.facts = dict(st.facts)
        base_trace = TNode(None, ("loopbase",))
        s.trace = base_trace
        L.init_marks = {k: v for k, v in s.store.items() if k[0] == "ARR"}
        nthrow, nstore = len(self.throws), len(self.stores)
        opq = {k: list(v) for k, v in self.opaque_calls.items()}
        self.loops.append(L)
        bound_count = None
        ccond = T
        try:
            if cond is not None:
                ccond = self.as_cond(self.ev(cond, s, fr))
                bound_count = self.trip_count(ccond, L)
                L.count = bound_count if bound_count is not None else atom(("trip", L.id))
                RANGES[L.lv] = L.count
                if bound_count is None:
                    s.assume(ccond)
                else:
                    # 0 <= lv < count holds inside
                    s.facts[lt0(lva)] = False
                    d = csimplify(ccond, s.facts)
                    for a, v in literals(ccond):
                        s.facts[a] = v
            else:
                L.count = atom(("trip", L.id))
                RANGES[L.lv] = L.count
            out = self.exec(body, s, fr)
            cur = None
            for kk in ("N", "C"):
                if kk in out and not out[kk][1].dead:
                    cur = self.join_out(cur, out[kk])
            brk = out.get("B")
            ret = out.get("R")
            if cur is not None and inc is not None:
                self.ev(inc, cur[1], fr)
        finally:
            self.loops.pop()
        # actually modified outer scalars
        mod = {p for p in L.modified if p not in L.local and p[0] not in ("T", "H", "RET") and not self.inner_local(p, L)}
        if not mod <= M:
            newM = M | mod
            del self.throws[nthrow:]
            del self.stores[nstore:]
            self.opaque_calls = opq
            return ("retry", newM, induct)
        if cur is None:
            # body never completes normally: at most one iteration
            end = None
        else:
            end = cur[1]
        # induction variables
        if end is not None:
            new = dict(induct)
            for p in M:
                if p in induct:
                    continue
                v = end.store.get(p)
                if isinstance(v, Poly):
                    d = sub(v, atom(("LC", L.id, p)))
                    if not occurs_id(L, d, M) and not occurs(L.lv, d) and (not carried_occurs(L, d)) and self.loop_invariant(d, L):
                        new[p] = d
            if new != induct:
                del self.throws[nthrow:]
                del self.stores[nstore:]
                self.opaque_calls = opq
                return ("retry", M, new)
        # resolve carried array reads
        written = {a for a in L.written if not self.inner_array(a, L)}
        bodychains = {}
        if end is not None:
            for a in written:
                ch = end.store.get(("ARR", a))
                if ch is not None:
                    bodychains[a] = ch
        res = {}
        L.resolved = True
        L.written = written | {a for a in L.written if a not in written}

        outer = st

        def resolve_term(t):
            if t[0] == "LC" and t[1] == L.id:
                p = t[2]
                if p in carried:
                    v = end.store.get(p) if end is not None else None
                    if v is not None and v == atom(("LC", L.id, p)):
                        return carried[p] if isinstance(carried[p], Poly) else None
                return None
            if t[0] == "carry" and t[1] == L.id:
                a, idx, tc = t[2], t[3], t[4]
                if a not in bodychains:
                    pc = outer.store.get(("ARR", a))
                    r = self.chain_read(pc, a, idx, tc, {}, 0) if pc is not None else self.init_value(("E", a, idx), tc)
                    return r if isinstance(r, Poly) else None
                ok = True
                for d in chain_defs(bodychains[a], L):
                    r = solve_lv(d, idx, L, lva, {}, self)
                    if r == "no":
                        continue
                    if isinstance(r, Poly) and r == lva:
                        continue
                    ok = False
                    break
                if ok:
                    pc = outer.store.get(("ARR", a))
                    r = self.chain_read(pc, a, idx, tc, {}, 0) if pc is not None else self.init_value(("E", a, idx), tc)
                    return r if isinstance(r, Poly) else None
            return None

        def resolve(v):
            if isinstance(v, (Poly, tuple)):
                memo = resolve.memo
                return rewrite(v, lambda t: resolve_term(t), memo)
            return v
        resolve.memo = {}

        rs = State()
        rs.store = dict(st.store)
        rs.facts = dict(st.facts)
        rs.path = st.path
        rs.trace = st.trace
        count = L.count
        # trace
        evs = trace_list(end.trace, base_trace) if end is not None else []
        extra = []
        if brk is not None and not brk[1].dead:
            extra.append(("break", brk[0], trace_list(brk[1].trace, base_trace)))
        if ret is not None and not ret[1].dead:
            extra.append(("return", ret[0], trace_list(ret[1].trace, base_trace)))
        if evs or extra:
            evs = [map_event(e, resolve) for e in evs]
            extra = [("%s" % e[0], resolve(e[1]), [map_event(x, resolve) for x in e[2]]) for e in extra]
            rs.trace = TNode(rs.trace, ("loop", L.lv, count, evs + extra, L.where))
        broke = (brk is not None and not brk[1].dead)
        fresh = self.new_uid()
        if end is not None and not broke:
            for p in M:
                v = end.store.get(p)
                v0 = carried.get(p, st.store.get(p))
                if p in induct:
                    v00 = st.store.get(p)
                    base = v00 if isinstance(v00, Poly) else self.init_value(p, "i")
                    rs.store[p] = add(base, mul(induct[p], count))
                    continue
                if v is None:
                    continue
                v = resolve(v)
                if isinstance(v, Poly) and isinstance(v0, Poly):
                    lc = atom(("LC", L.id, p))
                    if v == lc or v == v0:
                        rs.store[p] = v0
                        continue
                    d = sub(v, lc)
                    if not carried_occurs(L, d):
                        rs.store[p] = add(v0, mksum(L.lv, count, d))
                        continue
                    if not carried_occurs(L, v):
                        last = subst(v, {L.lv: sub(count, ONE)})
                        rs.store[p] = last if self.positive(count, st) else phi(lt0(neg(count)), last, v0)
                        continue
                    rs.store[p] = atom(("loopval", L.id, p))
                elif v == v0:
                    rs.store[p] = v0
                else:
                    if isinstance(v, tuple) and v and v[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
                        rs.store[p] = ("b", ("loopval", L.id, p))
                    elif isinstance(v, tuple) and v[0] == "ptr":
                        rs.store[p] = v0 if v == ("ptr", ("D", ("LC", L.id, p))) else ("ptr", ("D", ("loopval", L.id, p)))
                    elif v == ("opq", ("LC", L.id, p)):
                        rs.store[p] = v0
                    else:
                        rs.store[p] = ("opq", ("loopval", L.id, p))
            for a, ch in bodychains.items():
                prev = st.store.get(("ARR", a)) or Chain("init", None, a)
                ch2 = map_chain(ch, L, resolve)
                rs.store[("ARR", a)] = Chain("loop", prev, L, ch2)
            # keep objects created inside the loop body visible by place (fields of arrays elements etc.)
            for k, v in end.store.items():
                if k not in rs.store and k[0] in ("EXT",):
                    rs.store[k] = v
        else:
            for p in mod:
                v0 = st.store.get(p)
                if v0 is None:
                    v0 = self.init_value(p, self.tcode_of(p))
                if isinstance(v0, Poly):
                    rs.store[p] = atom(("loopval", L.id, p))
                elif isinstance(v0, tuple) and v0 and v0[0] in ("T", "F", "lt", "eq", "not", "and", "or", "b"):
                    rs.store[p] = ("b", ("loopval", L.id, p))
                elif isinstance(v0, tuple) and v0[0] in ("ptr", "null"):
                    rs.store[p] = ("ptr", ("D", ("loopval", L.id, p)))
                else:
                    rs.store[p] = ("opq", ("loopval", L.id, p))
            for a in written:
                rs.store[("ARR", a)] = Chain("havoc")
        # while-type loop exit fact
        if bound_count is None and cond is not None and not broke and end is not None:
            pass
        for i in range(nstore, len(self.stores)):
            pl, v, w, pa, lo = self.stores[i]
            self.stores[i] = (pl, resolve(v) if isinstance(v, (Poly, tuple)) else v, w, pa, lo)
        outs = {"N": (T, rs)}
        if ret is not None and not ret[1].dead:
            rr = rs.fork()
            rv = ("RET", fr.uid)
            v = ret[1].store.get(rv)
            g = ("b", ("loopret", L.id))
            if v is not None:
                if isinstance(v, Poly):
                    rr.store[rv] = v if not (occurs(L.lv, v) or carried_occurs(L, v)) else atom(("loopret", L.id))
                elif isinstance(v, tuple) and not occurs(L.lv, v):
                    rr.store[rv] = v
                else:
                    rr.store[rv] = ("opq", ("loopret", L.id))
            outs["R"] = (g, rr)
            outs["N"] = (cnot(g), rs)
        return ("ok", outs)

    def loop_invariant(self, d, L):
        return True

    def tcode_of(self, p):
        t = self.place_types.get(p)
        if t is None and p[0] == "F":
            t = self.prog.fields.get(p[2], "int" if p[2] == "$size" else None)
        if t is None:
            return "f"
        return scalar_code(t)

    def inner_local(self, p, L):
        """place belongs to a frame entered inside the loop."""
        if p[0] == "L":
            return all(f.uid != p[1] for f in self.stack)
        if p[0] in ("F", "DS"):
            return self.inner_local(p[1], L) if isinstance(p[1], tuple) and p[1][0] in ("L", "F", "T", "H") else False
        return p[0] in ("T", "H")

    def inner_array(self, a, L):
        if a in L.local:
            return True
        return self.inner_local(a, L)

    def positive(self, c, st):
        k = c.const()
        if k is not None:
            return k > 0
        return self.truth(st, lt0(neg(c))) is True

    def trip_count(self, c, L):
        """number of iterations from the loop condition, linear in the counter with step sign; None if unknown."""
        # condition forms: p<0 ; not(p<0) ; not(p==0)
        neg_ = False
        if c[0] == "not":
            neg_ = True
            c = c[1]
        if c[0] == "lt":
            p = c[1]
            k = linear_coef(p, L.lv)
            if k is None:
                return None
            rest = sub(p, scale(atom(L.lv), k))
            if not neg_:
                # k*lv + rest < 0, needs k>0: lv < -rest/k
                if k <= 0:
                    return None
                if k == 1:
                    return neg(rest)
                return idiv(add(neg(rest), num(k - 1)), num(k)) if k.denominator == 1 else None
            # k*lv + rest >= 0, needs k<0: lv <= rest/(-k)
            if k >= 0:
                return None
            if k == -1:
                return add(rest, ONE)
            return None
        if c[0] == "eq" and neg_:
            p = c[1]
            k = linear_coef(p, L.lv)
            if k is None or abs(k) != 1:
                return None
            rest = sub(p, scale(atom(L.lv), k))
            return neg(rest) if k == 1 else rest
        return None


RANGES = {}     # loop counter term -> trip count Poly (counter in [0, count))


def assigned(x):
    """the variable an expression assigns, or None."""
    if x[0] == "asg" and x[3][0] == "var":
        return x[3][2]
    if x[0] == "un" and x[2][:2] in ("++", "--") and x[3][0] == "var":
        return x[3][2]
    return None


def brk(x):
    while x is not None and x[0] == "block" and len(x[2]) == 1:
        x = x[2][0]
    return x is not None and x[0] == "break"


def always(x):
    """the expressions evaluated whenever a statement is, that assign variables."""
    if not isinstance(x, list) or not x or x[0] in ("if", "for", "while", "do", "frange", "switch", "try", "cond", "block", "label"):
        return
    if x[0] == "bin" and x[2] in ("&&", "||"):
        yield from always(x[3])
        return
    for y in x:
        yield from always(y)
    if isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int) and assigned(x) is not None:
        yield x


class LoopInfo(object):
    def __init__(self, id, line, where):
        self.id = id
        self.line = line
        self.where = where
        self.lv = ("lv", id)
        self.count = None
        self.modified = set()
        self.local = set()
        self.written = set()
        self.resolved = None


def linear_coef(p, lv):
    """k with p = k*lv + rest, rest free of lv; None otherwise."""
    a = atom_id(lv)
    k = Fraction(0)
    for m, c in p.t.items():
        if m == ((a, 1),):
            k = c
        else:
            for x, e in m:
                if x == a or occurs(lv, sym.atom_term(x)):
                    return None
    return k if k else None


def occurs_id(L, d, M):
    return any(occurs(("LC", L.id, p), d) for p in M)


_loopid_cache = {}


def has_loop_atoms(x, lid):
    key = (x, lid)
    r = _loopid_cache.get(key)
    if r is not None:
        return r
    if isinstance(x, tuple) and x and x[0] in ("LC", "carry") and x[1] == lid:
        r = True
    else:
        r = any(has_loop_atoms(y, lid) for y in sym._children(x))
    _loopid_cache[key] = r
    return r


def carried_occurs(L, d):
    return has_loop_atoms(d, L.id)


def occurs_carry(lid, d):
    return has_loop_atoms(d, lid)


def opaque_value(t, tc):
    if tc == "b":
        return ("b", t)
    if tc == "p":
        return ("ptr", ("D", t))
    if tc in ("c", "a"):
        return ("obj", ("D", t))
    return atom(t)


def vphi(c, a, b):
    if a == b:
        return a
    if c == T:
        return a
    if c == F:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return phi(c, a, b)
    ck = ("T", "F", "lt", "eq", "not", "and", "or", "b")
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in ck and b[0] in ck:
        return cor(cand(c, a), cand(cnot(c), b))
    if c[0] == "not":
        return ("phi", c[1], b, a)
    return ("phi", c, a, b)


def vsubst(v, mp):
    if isinstance(v, (Poly, tuple)):
        return subst(v, mp)
    return v


def find_top_phi(p):
    for m in p.t:
        for a, e in m:
            t = sym.atom_term(a)
            if t[0] == "phi":
                return t[1]
    return None


def common_path(a, b):
    la = set()

    def conj(c, out):
        if c[0] == "and":
            conj(c[1], out)
            conj(c[2], out)
        else:
            out.append(c)
    x, y = [], []
    conj(a, x)
    conj(b, y)
    r = T
    for c in x:
        if c in y:
            r = cand(r, c)
    return r


def rebase(q, src, dst):
    """q with its root place src replaced by dst, None if q is not below src."""
    if q == src:
        return None
    if isinstance(q, tuple) and len(q) > 1 and q[0] in ("F", "DS", "EXT", "REF") and isinstance(q[1], tuple):
        if q[1] == src:
            return (q[0], dst) + q[2:]
        r = rebase(q[1], src, dst)
        if r is not None:
            return (q[0], r) + q[2:]
    return None


def map_event(e, f):
    if e[0] == "if":
        return ("if", f(e[1]), [map_event(x, f) for x in e[2]], [map_event(x, f) for x in e[3]])
    if e[0] == "loop":
        return ("loop", e[1], f(e[2]), [map_event(x, f) for x in e[3]], e[4])
    if e[0] in ("break", "return"):
        return (e[0], f(e[1]), [map_event(x, f) for x in e[2]])
    return tuple(f(x) if isinstance(x, (Poly, tuple)) else x for x in e)


def map_chain(ch, L, f, memo=None):
    """copy of a body chain (down to L's marker) with resolved values."""
    if memo is None:
        memo = {}
    if ch.uid in memo:
        return memo[ch.uid]
    if ch.k == "mark" and ch.a is L:
        r = ch
    elif ch.k in ("init", "fill", "havoc", "mark"):
        r = ch
    elif ch.k == "def":
        r = Chain("def", map_chain(ch.prev, L, f, memo), tuple(f(i) if isinstance(i, (Poly, tuple)) else i for i in ch.a), f(ch.b) if isinstance(ch.b, (Poly, tuple)) else ch.b)
    elif ch.k == "phi":
        r = Chain("phi", None, map_chain(ch.a, L, f, memo), map_chain(ch.b, L, f, memo), f(ch.c))
    elif ch.k == "loop":
        # inner loop: its own marker chain ends at inner marker whose prev is our chain
        inner = ch.a
        r = Chain("loop", map_chain(ch.prev, L, f, memo), inner, map_chain(ch.b, L, f, memo))
    else:
        r = ch
    memo[ch.uid] = r
    return r


def chain_defs(ch, L, seen=None):
    """all definition nodes of a loop body chain, with inner loop counters they are quantified over: (idx, inner Ls)."""
    out = []
    seen = set()

    def go(c, inner, stop):
        while c is not None:
            key = (c.uid, len(inner))
            if key in seen:
                return
            seen.add(key)
            if c.k == "mark":
                if c.a is stop:
                    return
                return
            if c.k == "def":
                out.append((c.a, tuple(inner), c))
                c = c.prev
                continue
            if c.k == "phi":
                go(c.a, inner, stop)
                go(c.b, inner, stop)
                return
            if c.k == "loop":
                go(c.b, inner + [c.a], c.a)
                c = c.prev
                continue
            if c.k in ("fill", "havoc", "init"):
                if c.k != "init":
                    out.append((None, tuple(inner), c))
                return
            return
    go(ch, [], L)
    return out


def solve_lv(d, idx, L, lva, facts, I):
    """which iteration of L makes definition d write idx: 'no', 'inv' (every iteration), 'maybe', or the Poly solution."""
    didx, inner, node = d
    if didx is None:
        return "maybe"
    if len(didx) != len(idx):
        return "maybe"
    inn = [x.lv for x in inner]
    sol = None
    rest = []
    for x, y in zip(didx, idx):
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            if x == y:
                continue
            return "maybe"
        # rename: the reader's own occurrence of L.lv means "current iteration"
        k = linear_coef(x, L.lv)
        hasinner = any(occurs(v, x) for v in inn)
        if k is None:
            if occurs(L.lv, x):
                return "maybe"
            rest.append((x, y, hasinner))
            continue
        if hasinner:
            rest.append((x, y, True))
            continue
        r = sub(x, scale(lva, k))
        cand_sol = sub(y, r)
        if abs(k) != 1:
            # divisible?
            s = scale(cand_sol, 1 / k)
            if all(c.denominator == 1 for c in s.t.values()):
                pass
            else:
                return "maybe"
            cand_sol = s
        else:
            cand_sol = scale(cand_sol, 1 / k)
        if sol is None:
            sol = cand_sol
        elif sol != cand_sol:
            dd = sub(sol, cand_sol)
            c = dd.const()
            if c is not None and c != 0:
                return "no"
            return "maybe"
    for x, y, hi in rest:
        if sol is not None:
            x = subst(x, {L.lv: sol})
        df = sub(x, y)
        c = df.const()
        if c is not None:
            if c != 0:
                return "no"
            continue
        lo, hi2 = poly_range(df)
        if (lo is not None and lo > 0) or (hi2 is not None and hi2 < 0):
            return "no"
        e = eq0(df)
        r = decide(e, facts)
        if r is False:
            return "no"
        if r is True:
            continue
        if hi:
            continue       # some inner iteration may write it: resolved by the inner read
        if sol is None:
            return "maybe"
        return "maybe"
    if sol is None:
        if any(occurs(L.lv, x) for x, y, h in rest):
            return "maybe"
        return "inv"
    return sol


def in_range(s, count):
    """0 <= s < count provable from counter ranges."""
    lo, hi = poly_range(s)
    if lo is not None and lo >= 0:
        d = sub(s, count)
        lo2, hi2 = poly_range(d)
        if hi2 is not None and hi2 < 0:
            return True
        if lo2 is not None and lo2 >= 0:
            return False
        # s is a counter with the same count
        if s.t and len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                t = sym.atom_term(m[0][0])
                r = RANGES.get(t)
                if r is not None and r == count:
                    return True
    if hi is not None and hi < 0:
        return False
    return None


POSITIVE = set()   # terms known to be >= 1


def poly_range(p, depth=0):
    """(lo, hi) Fractions or None: bounds of a linear form over loop counters with constant or symbolic trip counts."""
    lo = hi = Fraction(0)
    # eliminate counters with symbolic counts by substituting extreme values when that cancels
    for m, c in p.t.items():
        if not m:
            if lo is not None:
                lo += c
            if hi is not None:
                hi += c
            continue
        if len(m) == 1 and m[0][1] == 1:
            t = sym.atom_term(m[0][0])
            if t in RANGES:
                cnt = RANGES[t].const() if RANGES[t] is not None else None
                up = cnt - 1 if cnt is not None else None
                a, b = (Fraction(0), up)
            elif t in POSITIVE:
                a, b = Fraction(1), None
            elif t[0] in ("extent", "size"):
                a, b = Fraction(0), None
            elif t[0] == "imod" and t[2].const() and t[2].const() > 0:
                a, b = None, t[2].const() - 1
            else:
                a = b = None
            x, y = (a, b) if c > 0 else (b, a)
            lo = None if lo is None or x is None else lo + c * x
            hi = None if hi is None or y is None else hi + c * y
        else:
            lo = hi = None
            break
    if depth < 3 and (lo is None or hi is None):
        # symbolic counter bound: lv <= count-1, lv >= 0
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                t = sym.atom_term(m[0][0])
                cnt = RANGES.get(t)
                if cnt is not None and cnt.const() is None:
                    if linear_coef(p, t) is None:
                        continue
                    top = subst(p, {t: sub(cnt, ONE)})
                    bot = subst(p, {t: ZERO})
                    l1, h1 = poly_range(top if c < 0 else bot, depth + 1)
                    l2, h2 = poly_range(bot if c < 0 else top, depth + 1)
                    if lo is None:
                        lo = l1
                    if hi is None:
                        hi = h2
                    break
    return lo, hi


# ---------------------------------------------------------------------- entry points
def new_interp(prog, **kw):
    I = Interp(prog, **kw)
    I.arrays = set()
    I.ranks = {}
    I.place_types = {}
    return I


def run_function(I, fn, this=None, args=None, st=None, arg_places=None):
    """interpret fn with symbolic inputs; args: name -> value or ('PLACE', place)."""
    st = st or State()
    this = this if this is not None else ("this",)
    uid = I.new_uid()
    fr = Frame(fn, this, uid)
    for pid, name, t in fn.params:
        p = ("P", name)
        if args and name in args and isinstance(args[name], tuple) and args[name] and args[name][0] == "PLACE":
            fr.env[pid] = args[name][1]
            continue
        fr.env[pid] = p
        I.place_types[p] = t
        if args and name in args:
            st.store[p] = args[name]
    I.fnlog.add(fn.key)
    I.stack.append(fr)
    try:
        if fn.kind == "ctor":
            for it in fn.inits:
                if it[0] == "f":
                    I.init_field(st, fr, ("F", this, it[1]), it[2], it[1])
                elif it[2] is not None and it[2][0] == "ctor":
                    bf = I.prog.fns.get(it[2][3])
                    if bf is not None and I.inline(bf):
                        I.invoke(bf, this, it[2][4], st, fr, it[2])
        out = I.exec_block([fn.body], st, fr)
    finally:
        I.stack.pop()
    N, R = out.get("N"), out.get("R")
    s = None
    if R is not None and not R[1].dead and N is not None and not N[1].dead:
        s = I.merge(R[0], R[1], N[1])
    elif R is not None and not R[1].dead:
        s = R[1]
    elif N is not None:
        s = N[1]
    ret = s.store.get(("RET", uid)) if s is not None else None
    return s, ret


def flatten(evs, cond=T, loops=()):
    """(event, cond, loops) triples of a structured trace."""
    for e in evs:
        if e[0] == "if":
            for x in flatten(e[2], cand(cond, e[1]), loops):
                yield x
            for x in flatten(e[3], cand(cond, cnot(e[1])), loops):
                yield x
        elif e[0] == "loop":
            for x in flatten(e[3], cond, loops + ((e[1], e[2]),)):
                yield x
        elif e[0] in ("break", "return"):
            for x in flatten(e[2], cand(cond, e[1]), loops):
                yield x
        else:
            yield e, cond, loops
