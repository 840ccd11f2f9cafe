"""Interpreting one function as a closed formula: value parameters in, reference parameters and result out."""
from absint import *
from ident import nval, ncond, Undefined


class Caller(object):
    def __init__(self, prog, check, setup=None):
        self.prog, self.check, self.setup = prog, check, setup

    def fn(self, qual):
        return self.prog.fn(qual)

    def where(self, qual):
        f = self.fn(qual)
        return (f.file, f.line, f.qual)

    def __call__(self, qual, ins, inout=None, this=None, st=None, hook=None):
        """-> Result(outs by parameter name, ret, throws) or None when it always throws."""
        f = qual if not isinstance(qual, str) else self.fn(qual)
        I = new_interp(self.prog)
        if hook is not None:
            I.call_hook = hook
        if self.setup:
            self.setup(I)
        st = st.fork() if st is not None else State()
        args, outs = {}, []
        k = 0
        for pid, nm, t in f.params:
            if is_ref(t) and "const" not in t:
                pl = ("G", "out_%s" % nm)
                args[nm] = ("PLACE", pl)
                I.place_types[pl] = t.replace("&", "").strip()
                et = t.replace("&", "").strip()
                sc = scalar_code(et)
                outs.append((nm, pl, "i" if sc == "c" else sc))
                if inout and nm in inout:
                    st.store[pl] = inout[nm]
            else:
                if k >= len(ins):
                    raise AnalysisBroken("%s takes more arguments than expected" % f.qual)
                args[nm] = ins[k]
                k += 1
        s, r = run_function(I, f, this, args, st)
        if self.check is not None:
            self.check.functions |= set(I.fnlog)
        if s is None:
            return None
        R = Result()
        R.state, R.interp, R.ret = s, I, r
        R.throws = [t[0] for t in I.throws]
        R.out = [I.load(s, pl, sc) for nm, pl, sc in outs]
        return R


class Result(object):
    def refused(self, env):
        return any(ncond(p, env) for p in self.throws)

    def value(self, i, env=None):
        """numeric or boolean value of output i (or the result, i = 'ret') at a point."""
        v = self.ret if i == "ret" else self.out[i]
        return value(v, env or {})


def value(v, env):
    if isinstance(v, Poly):
        return nval(v, env)
    if isinstance(v, tuple):
        if v[0] in ("T", "F", "not", "and", "or", "lt", "eq", "b"):
            return 1.0 if ncond(v, env) else 0.0
        return nval(v, env)
    raise Undefined("not resolved: %s" % (v,))


def bulk_memory(I, st, fr, qual, args, esize, log):
    """memset, memcpy, memmove and their counterparts of <algorithm> on whole arrays: log(kind, target, other, bytes); -> value or NotImplemented."""
    nm = (qual or "").split("::")[-1].split("<")[0]
    blk = lambda p: p[1][1] if p[1][0] == "E" else I.to_place(p)
    start = lambda p: p[1][2][0] if p[1][0] == "E" and p[1][2] else ZERO
    isptr = lambda p: isinstance(p, tuple) and p[0] == "ptr"
    if nm == "memset" and len(args) == 3:
        p, v, sz = I.ev(args[0], st, fr), I.as_num(I.ev(args[1], st, fr)), I.as_num(I.ev(args[2], st, fr))
    elif nm == "fill" and len(args) == 3 and qual.startswith("std::"):
        p, e, v = I.ev(args[0], st, fr), I.ev(args[1], st, fr), I.as_num(I.ev(args[2], st, fr))
        if not (isptr(p) and isptr(e) and blk(p) == blk(e)):
            return NotImplemented
        sz = mul(num(esize), sub(start(e), start(p)))
    elif nm == "fill_n" and len(args) == 3 and qual.startswith("std::"):
        p, k, v = I.ev(args[0], st, fr), I.as_num(I.ev(args[1], st, fr)), I.as_num(I.ev(args[2], st, fr))
        sz = mul(num(esize), k)
    elif nm in ("memcpy", "memmove") and len(args) == 3:
        p, s, sz = I.ev(args[0], st, fr), I.ev(args[1], st, fr), I.as_num(I.ev(args[2], st, fr))
        v = None
    elif nm == "copy" and len(args) == 3 and qual.startswith("std::"):
        s, e, p = (I.ev(a, st, fr) for a in args)
        if not (isptr(s) and isptr(e) and blk(s) == blk(e)):
            return NotImplemented
        v, sz = None, mul(num(esize), sub(start(e), start(s)))
    elif nm == "copy_n" and len(args) == 3 and qual.startswith("std::"):
        s, k, p = I.ev(args[0], st, fr), I.as_num(I.ev(args[1], st, fr)), I.ev(args[2], st, fr)
        v, sz = None, mul(num(esize), k)
    else:
        return NotImplemented
    if v is not None:
        log("memset", p, v, sz)
        if is_zero(v) and isptr(p) and is_zero(start(p)):
            I.set_chain(st, blk(p), Chain("fill", None, ZERO))
        return p
    log("memcpy", p, s, sz)
    if isptr(p) and isptr(s) and is_zero(start(p)) and is_zero(start(s)):
        I.set_chain(st, blk(p), I.chain(st, blk(s)))
    return p
