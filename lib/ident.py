"""Deciding whether two closed formulas extracted from the source are the same function.

First the canonical forms are compared.  If they differ, the formulas (not the program) are evaluated at
points drawn from the stated domain: a difference beyond rounding at any point refutes equality and is reported with
the point; agreement at every point is identity testing in the sense of Schwartz-Zippel, with double precision."""
import math, random
from fractions import Fraction
from sym import *
from sym import _terms
import sym


class Undefined(Exception):
    pass


def nval(p, env, memo=None):
    if memo is None:
        memo = {}
    if isinstance(p, tuple):
        if p and p[0] == "phi":
            return nval(p[2] if ncond(p[1], env, memo) else p[3], env, memo)
        return nterm(p, env, memo)
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            k = ("a", a)
            x = memo.get(k)
            if x is None:
                x = nterm(_terms[a], env, memo)
                memo[k] = x
            if x == 0 and e < 0:
                raise Undefined("division by zero: %s" % show(_terms[a]))
            v *= x ** e
        s += v
    return s


def nterm(t, env, memo):
    if t in env:
        v = env[t]
        return v
    k = t[0]
    if k == "phi":
        return nval(t[2] if ncond(t[1], env, memo) else t[3], env, memo)
    if k == "inv":
        v = nval(t[1], env, memo)
        if v == 0:
            raise Undefined("division by zero: %s" % show(t))
        return 1.0 / v
    if k == "pow":
        return nval(t[1], env, memo) ** nval(t[2], env, memo)
    if k in ("fabs", "abs"):
        return abs(nval(t[1], env, memo))
    if k in ("imod", "idiv"):
        a, b = nval(t[1], env, memo), nval(t[2], env, memo)
        if b == 0:
            raise Undefined("integer division by zero")
        q = math.trunc(a / b) if abs(a) < 2 ** 50 else int(a) // int(b)
        return float(q) if k == "idiv" else a - q * b
    if k in ("fmax", "max"):
        return max(nval(x, env, memo) for x in t[1:])
    if k in ("fmin", "min"):
        return min(nval(x, env, memo) for x in t[1:])
    if k == "trunc" or k == "toint":
        return float(math.trunc(nval(t[1], env, memo)))
    if hasattr(math, str(k)) and all(isinstance(x, Poly) for x in t[1:]) and len(t) > 1:
        a = [nval(x, env, memo) for x in t[1:]]
        try:
            return getattr(math, k)(*a)
        except ValueError:
            raise Undefined("%s undefined at %s" % (k, a))
    gen = env.get("*")
    if gen is not None:
        v = gen(t)
        if v is not None:
            return v
    raise Undefined("unknown %s" % show(t))


def ncond(c, env, memo=None):
    if memo is None:
        memo = {}
    k = c[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "not":
        return not ncond(c[1], env, memo)
    if k == "and":
        return ncond(c[1], env, memo) and ncond(c[2], env, memo)
    if k == "or":
        return ncond(c[1], env, memo) or ncond(c[2], env, memo)
    if k == "lt":
        return nval(c[1], env, memo) < 0
    if k == "eq":
        return nval(c[1], env, memo) == 0
    if k == "phi":
        return ncond(c[2] if ncond(c[1], env, memo) else c[3], env, memo)
    if c in env:
        return env[c]
    if k == "b" and isinstance(c[1], tuple):
        if c[1] in env:
            return bool(env[c[1]])
        gen = env.get("*")
        if gen is not None:
            v = gen(c[1])
            if v is not None:
                return bool(v)
    raise Undefined("condition %s" % show(c))


class Identity(object):
    """ident(p, q, points) -> (True|False|None, how)."""
    def __init__(self, seed=1, n=24, tol=1e-9):
        self.rng = random.Random(seed)
        self.n, self.tol = n, tol
        self.canonical = self.tested = 0

    def __call__(self, p, q, draw):
        if isinstance(p, Poly) and isinstance(q, Poly) and equal(p, q):
            self.canonical += 1
            return True, "canonical forms agree"
        und = 0
        last = None
        for i in range(self.n):
            env = draw(self.rng)
            try:
                a, b = nval(p, env), nval(q, env)
            except Undefined as e:
                und += 1
                last = str(e)
                continue
            if a != a or b != b or abs(a - b) > self.tol * (1.0 + abs(a) + abs(b)):
                pt = ", ".join("%s=%.6g" % (show(k) if isinstance(k, tuple) else k, v) for k, v in sorted(env.items(), key=repr) if isinstance(v, (int, float)))
                return False, "at %s the values are %.10g and %.10g" % (pt[:200], a, b)
        if und == self.n:
            return None, "no point of the domain could be evaluated (%s)" % last
        self.tested += 1
        return True, "identity test at %d points" % (self.n - und)


def diff(p, x):
    """derivative of a formula with respect to atom x (a term)."""
    if isinstance(p, tuple):
        return dterm(p, x)
    r = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            d = dterm(_terms[a], x)
            if not d.t:
                continue
            rest = Poly({tuple((b, k) for j, (b, k) in enumerate(m) if j != i): c})
            rest = mul(rest, power(atom(_terms[a]), e - 1)) if e != 1 else rest
            r = add(r, mul(scale(rest, e), d))
    return r


def dterm(t, x):
    if t == x:
        return ONE
    k = t[0]
    A = [y for y in t[1:] if isinstance(y, Poly)]
    if not any(occurs(x, y) for y in t[1:] if isinstance(y, (Poly, tuple))):
        return ZERO
    u = A[0] if A else None
    me = atom(t)
    if k == "phi":
        return phi(t[1], diff(t[2], x), diff(t[3], x))
    if k == "inv":
        return neg(mul(mul(me, me), diff(u, x)))
    if k == "sqrt":
        return mul(div(num(Fraction(1, 2)), me), diff(u, x))
    if k == "exp":
        return mul(me, diff(u, x))
    if k == "log":
        return div(diff(u, x), u)
    if k == "sin":
        return mul(fn("cos", u), diff(u, x))
    if k == "cos":
        return neg(mul(fn("sin", u), diff(u, x)))
    if k == "tan":
        return mul(add(ONE, mul(me, me)), diff(u, x))
    if k == "tanh":
        return mul(sub(ONE, mul(me, me)), diff(u, x))
    if k == "sinh":
        return mul(fn("cosh", u), diff(u, x))
    if k == "cosh":
        return mul(fn("sinh", u), diff(u, x))
    if k == "atan":
        return div(diff(u, x), add(ONE, mul(u, u)))
    if k == "acos":
        return neg(div(diff(u, x), fn("sqrt", sub(ONE, mul(u, u)))))
    if k == "asin":
        return div(diff(u, x), fn("sqrt", sub(ONE, mul(u, u))))
    if k == "pow":
        b, e = A
        r = mul(mul(e, div(me, b)), diff(b, x))
        if occurs(x, e):
            r = add(r, mul(mul(me, fn("log", b)), diff(e, x)))
        return r
    raise Undefined("cannot differentiate %s" % show(t))
