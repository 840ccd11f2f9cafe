"""Contracts of std::map, std::set, their iterators and std::pair for containers whose keys are constants of the analysis."""
import re
from absint import *

KEYS = "$keys"
MAP = re.compile(r"^std::(map|set)<")
ITER = re.compile(r"^std::_Rb_tree_(const_)?iterator<")


class EndIterator(AnalysisBroken):
    """The code uses the element an end iterator stands for."""


class Maps(object):
    def __init__(self, inner=None):
        self.inner = inner

    # iterator values: ("mit", map place, key Poly or None for end, is_set)
    def keys(self, I, st, m):
        v = st.store.get(("F", m, KEYS))
        if v is None:
            if m[0] in ("L", "T", "H"):
                return ()
            if I.field_init is not None:
                v = I.field_init(("F", m, KEYS), "keys")
            if v is None:
                raise AnalysisBroken("content of map %s unknown" % (m,))
        if v[0] != "mkeys":
            raise AnalysisBroken("keys of map %s depend on %s" % (m, v[1]))
        return v[1]

    def setkeys(self, I, st, m, ks):
        st.store[("F", m, KEYS)] = ("mkeys", tuple(ks))
        for L in I.loops:
            L.modified.add(("F", m, KEYS))

    def key(self, I, v):
        if isinstance(v, Poly) and v.is_const():
            return v
        if isinstance(v, tuple) and v and v[0] in ("str", "ptr"):
            return v
        raise AnalysisBroken("map key is not a constant: %s" % (v,))

    def order(self, k):
        return (0, k.const()) if isinstance(k, Poly) else (1, repr(k))

    def it(self, I, st, v):
        if isinstance(v, tuple) and v and v[0] == "obj":
            v = st.store.get(v[1], v)
        if not (isinstance(v, tuple) and v and v[0] == "mit"):
            raise AnalysisBroken("iterator value not resolved: %s" % (v,))
        return v

    def step(self, I, st, v, d):
        ks = self.keys(I, st, v[1])
        if v[2] is None:
            return ("mit", v[1], ks[-1] if d < 0 else None, v[3])
        i = ks.index(v[2]) + d
        return ("mit", v[1], ks[i] if 0 <= i < len(ks) else None, v[3])

    def deref(self, I, st, v):
        if v[2] is None:
            raise EndIterator("end iterator dereferenced")
        if v[3]:
            return ("F", v, "$key")
        return ("MP", v[1], v[2])

    def __call__(self, I, st, fr, n, key, qual, place, args):
        r = self.handle(I, st, fr, n, qual, place, args)
        if r is NotImplemented and self.inner is not None:
            return self.inner(I, st, fr, n, key, qual, place, args)
        return r

    def handle(self, I, st, fr, n, qual, place, args):
        if qual is None:
            return NotImplemented
        m = MAP.match(qual)
        if m:
            isset = m.group(1) == "set"
            meth = qual.split("::")[-1]
            if meth == "ctor":
                if args and args[0] is not None:
                    vals = [I.ev(a, st, fr) for a in args]
                    if isinstance(vals[0], tuple) and vals[0][0] == "obj":
                        I.copy_object(st, vals[0], place)
                        self.setkeys(I, st, place, self.keys(I, st, vals[0][1]))
                        return ("obj", place)
                self.setkeys(I, st, place, ())
                return ("obj", place)
            if qual.endswith("operator[]"):
                m_ = place if place is not None else I.obj_place(args[0], st, fr)
                kv = self.key(I, I.ev(args[-1], st, fr))
                self.insert(I, st, m_, kv, None, isset)
                p = ("E", m_, (kv,))
                return ("obj", p) if n[-1] == "c" else (I.load(st, p, n[-1]) if n[-1] in "ifbp" and False else ("lref", p))
            if place is None:
                return NotImplemented
            if meth == "find" and not self.keys(I, st, place):
                I.ev(args[0], st, fr)
                return ("mit", place, None, isset)
            if meth == "find":
                kv = self.key(I, I.ev(args[0], st, fr))
                return ("mit", place, kv if kv in self.keys(I, st, place) else None, isset)
            if meth == "count" and not self.keys(I, st, place):
                I.ev(args[0], st, fr)
                return ZERO
            if meth == "count":
                kv = self.key(I, I.ev(args[0], st, fr))
                return num(1 if kv in self.keys(I, st, place) else 0)
            if meth in ("begin", "cbegin"):
                ks = self.keys(I, st, place)
                return ("mit", place, ks[0] if ks else None, isset)
            if meth in ("end", "cend"):
                return ("mit", place, None, isset)
            if meth == "size":
                return num(len(self.keys(I, st, place)))
            if meth == "empty":
                return T if not self.keys(I, st, place) else F
            if meth == "clear":
                self.setkeys(I, st, place, ())
                return ("opq", ("void",))
            if meth == "erase":
                v = I.ev(args[0], st, fr)
                if isinstance(v, tuple) and v and v[0] == "obj":
                    v = st.store.get(v[1], v)
                if isinstance(v, tuple) and v and v[0] == "mit" and v[2] is None and st.path == T:
                    raise EndIterator("end iterator erased")
                kv = v[2] if isinstance(v, tuple) and v and v[0] == "mit" else self.key(I, v)
                self.setkeys(I, st, place, [k for k in self.keys(I, st, place) if k != kv])
                return ("opq", ("void",))
            if meth == "insert":
                v = I.ev(args[-1], st, fr)
                if isset:
                    kv, val = self.key(I, v), None
                else:
                    if not (isinstance(v, tuple) and v[0] == "obj"):
                        raise AnalysisBroken("pair inserted into a map not resolved")
                    kv = self.key(I, I.load(st, ("F", v[1], "$first"), "i"))
                    val = (v[1], "$second")
                new = kv not in self.keys(I, st, place)
                self.insert(I, st, place, kv, val, isset)
                t = ("T", I.new_uid())
                st.store[("F", t, "$first")] = ("mit", place, kv, isset)
                st.store[("F", t, "$second")] = T if new else F
                return ("obj", t)
            return NotImplemented
        if qual.startswith("std::pair<"):
            if qual.endswith("::ctor") or qual.endswith("::pair"):
                if len(args) == 2:
                    for a, f in zip(args, ("$first", "$second")):
                        v = I.ev(a, st, fr)
                        if isinstance(v, tuple) and v and v[0] == "obj":
                            I.copy_object(st, v, ("F", place, f))
                        else:
                            st.store[("F", place, f)] = v
                    return ("obj", place)
                if len(args) == 1:
                    v = I.ev(args[0], st, fr)
                    I.copy_object(st, v, place)
                    return ("obj", place)
            return NotImplemented
        if qual == "std::make_pair":
            t = ("T", I.new_uid())
            for a, f in zip(args, ("$first", "$second")):
                v = I.ev(a, st, fr)
                if isinstance(v, tuple) and v and v[0] == "obj":
                    I.copy_object(st, v, ("F", t, f))
                else:
                    st.store[("F", t, f)] = v
            return ("obj", t)
        if ITER.match(qual):
            op = qual.split("operator")[-1] if "operator" in qual else qual.split("::")[-1]
            if op == "ctor":
                v = self.it(I, st, I.ev(args[0], st, fr)) if args else None
                if v is not None:
                    st.store[place] = v
                return ("obj", place)
            if op in ("->", "*"):
                v = self.it(I, st, I.ev(args[0], st, fr))
                d = self.deref(I, st, v)
                if v[3]:
                    return v[2]
                return ("ptr", d) if op == "->" else ("obj", d)
            if op in ("++", "--"):
                p = I.lv(args[0], st, fr)
                v = self.it(I, st, I.load_obj(st, p))
                w = self.step(I, st, v, 1 if op == "++" else -1)
                I.store_to(st, p, w, n)
                return v if len(args) > 1 else ("obj", p)
            if op == "=":
                v = self.it(I, st, I.ev(args[1], st, fr))
                p = I.obj_place(args[0], st, fr)
                I.store_to(st, p, v, n)
                return ("obj", p)
            if op in ("==", "!="):
                return self.compare(I, st, fr, args, op)
        if qual in ("std::operator==", "std::operator!=") and len(args) == 2:
            a = I.ev(args[0], st, fr)
            a = st.store.get(a[1], a) if isinstance(a, tuple) and a and a[0] == "obj" else a
            if isinstance(a, tuple) and a and a[0] == "mit":
                return self.compare(I, st, fr, args, qual[13:])
        return NotImplemented

    def compare(self, I, st, fr, args, op):
        a, b = (self.it(I, st, I.ev(x, st, fr)) for x in args)
        e = T if a[1:3] == b[1:3] else F
        return e if op == "==" else cnot(e)

    def insert(self, I, st, m, k, val, isset):
        ks = self.keys(I, st, m)
        if k in ks:
            return
        self.setkeys(I, st, m, sorted(list(ks) + [k], key=self.order))
        if not isset:
            p = ("E", m, (k,))
            if val is None:
                I.store_to(st, p, ZERO)
                return
            src = ("F",) + val
            sv = st.store.get(src)
            if sv is not None:
                I.store_to(st, p, sv)
            else:
                I.copy_object(st, ("obj", src), p)


def enable(I, inner=None):
    I.call_hook = Maps(inner if inner is not None else I.call_hook)
    return I
