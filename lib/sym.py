"""Value numbering domain: hash-consed terms, polynomial / rational normal forms over them, boolean conditions."""
from fractions import Fraction
import itertools, math

_atoms = {}
_terms = []


def atom_id(term):
    i = _atoms.get(term)
    if i is None:
        i = len(_terms)
        _atoms[term] = i
        _terms.append(term)
    return i


def atom_term(i):
    return _terms[i]


class Poly(object):
    """sum of coef * prod atom^exp (integer exponents, possibly negative)."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def num(x):
    x = Fraction(x)
    return Poly({(): x}) if x else ZERO


def atom(term):
    return Poly({((atom_id(term), 1),): Fraction(1)})


def add(a, b, k=1):
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + c * k
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return Poly({m: -c for m, c in a.t.items()})


def scale(a, k):
    k = Fraction(k)
    return Poly({m: c * k for m, c in a.t.items()}) if k else ZERO


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def _reduce_mono(m, c):
    """apply sqrt(p)^2 -> p; returns Poly."""
    extra = None
    out = []
    for a, e in m:
        t = _terms[a]
        if t[0] == "sqrt" and (e >= 2 or e <= -1):
            # keep exponent in {0,1}
            k = e // 2
            r = e - 2 * k
            p = t[1]
            f = power(p, k)
            extra = f if extra is None else mul(extra, f)
            if r:
                out.append((a, r))
        elif t[0] == "cos" and e >= 2:
            k = e // 2
            r = e - 2 * k
            s = fn("sin", t[1])
            f = power(sub(ONE, mul(s, s)), k)
            extra = f if extra is None else mul(extra, f)
            if r:
                out.append((a, r))
        else:
            out.append((a, e))
    base = Poly({tuple(out): c})
    return base if extra is None else mul(base, extra)


def _needs_reduce(m):
    for a, e in m:
        k = _terms[a][0]
        if k == "sqrt" and (e >= 2 or e <= -1):
            return True
        if k == "cos" and e >= 2:
            return True
    return False


MAXTERMS = 60000


class TooBig(Exception):
    pass


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > MAXTERMS * 8:
        raise TooBig()
    t = {}
    slow = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = _mmul(m1, m2)
            if _needs_reduce(m):
                slow.append((m, c1 * c2))
                continue
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    r = Poly(t)
    for m, c in slow:
        r = add(r, _reduce_mono(m, c))
    return r


def power(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return inverse(power(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def content(p):
    """(coef, monomial) common factor, canonical: p = coef*mono*q, q with leading coefficient 1, no common monomial."""
    ms = list(p.t)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in list(common.items()) + [(x, 0) for x in d if x not in common]}
            common = {a: e for a, e in common.items() if e}
    mono = tuple(sorted((common or {}).items()))
    inv = tuple((a, -e) for a, e in mono)
    t = {}
    for m, c in p.t.items():
        t[_mmul(m, inv)] = c
    lead = t[min(t, key=lambda m: (len(m), m))]
    t = {m: c / lead for m, c in t.items()}
    return lead, mono, Poly(t)


def inverse(p):
    if not p.t:
        return atom(("inv0",))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({tuple((a, -e) for a, e in m): 1 / c})
        (m2, c2), = r.t.items()
        if _needs_reduce(m2):
            return _reduce_mono(m2, c2)
        # an inverted inverse is the polynomial itself
        out = r
        for a, e in m2:
            if _terms[a][0] == "inv" and e > 0:
                pass
        return out
    k, mono, q = content(p)
    base = Poly({tuple((a, -e) for a, e in mono): 1 / k})
    (m2, c2), = base.t.items()
    if _needs_reduce(m2):
        base = _reduce_mono(m2, c2)
    return mul(base, atom(("inv", q)))


def div(a, b):
    if a == b and b.t:
        return ONE
    return mul(a, inverse(b))


def fn(name, *args):
    """elementary function application with light normalisation."""
    if name == "sqrt":
        p = args[0]
        c = p.const()
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fraction(n, d))
        return atom(("sqrt", p))
    if name == "sin":
        p = args[0]
        if not p.t:
            return ZERO
        if _neglead(p):
            return neg(fn("sin", neg(p)))
        return atom(("sin", p))
    if name == "cos":
        p = args[0]
        if not p.t:
            return ONE
        if _neglead(p):
            return fn("cos", neg(p))
        return atom(("cos", p))
    if name == "tan":
        p = args[0]
        if not p.t:
            return ZERO
        return mul(fn("sin", p), inverse(fn("cos", p)))
    if name == "exp":
        p = args[0]
        if not p.t:
            return ONE
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and _terms[m[0][0]][0] == "log":
                return _terms[m[0][0]][1]
        # exp of a sum: product of exponentials of the monomials (constant multiples kept inside)
        r = ONE
        for m, c in sorted(p.t.items()):
            if c.denominator == 1 and c != 1 and abs(c) < 50:
                r = mul(r, power(atom(("exp", Poly({m: Fraction(1)}))), int(c)))
            else:
                r = mul(r, atom(("exp", Poly({m: c}))))
        return r
    if name == "log":
        p = args[0]
        if p == ONE:
            return ZERO
        # log of a monomial: sum
        if len(p.t) == 1:
            (m, c), = p.t.items()
            r = ZERO
            if c != 1:
                if c < 0:
                    return atom(("log", p))
                r = atom(("log", num(c)))
            for a, e in m:
                t = _terms[a]
                if t[0] == "exp":
                    r = add(r, scale(t[1], e))
                elif t[0] == "pow":
                    r = add(r, mul(scale(t[2], e), fn("log", t[1])))
                else:
                    r = add(r, scale(atom(("log", Poly({((a, 1),): Fraction(1)}))), e))
            return r
        return atom(("log", p))
    if name == "pow":
        x, y = args
        c = y.const()
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            return power(x, int(c))
        if c == Fraction(1, 2):
            return fn("sqrt", x)
        if x.const() == 1:
            return ONE
        if not y.t:
            return ONE
        # pow(monomial, y) = product of pow(atom, e*y)  (positive arguments, as floating-point pow requires)
        if len(x.t) == 1:
            (m, k), = x.t.items()
            r = ONE
            if k != 1:
                r = atom(("pow", num(k), y))
            for a, e in m:
                t = _terms[a]
                ey = scale(y, e)
                if t[0] == "pow":
                    r = mul(r, _powatom(t[1], mul(t[2], ey)))
                else:
                    r = mul(r, _powatom(Poly({((a, 1),): Fraction(1)}), ey))
            return r
        return atom(("pow", x, y))
    if name in ("fabs", "abs"):
        p = args[0]
        c = p.const()
        if c is not None:
            return num(abs(c))
        if _neglead(p):
            p = neg(p)
        return atom(("fabs", p))
    if name in ("tanh", "sinh", "atan", "asin"):
        p = args[0]
        if not p.t:
            return ZERO
        if _neglead(p):
            return neg(atom((name, neg(p))))
        return atom((name, p))
    if name == "cosh":
        p = args[0]
        if _neglead(p):
            p = neg(p)
        return atom((name, p)) if p.t else ONE
    return atom((name,) + args)


def _powatom(x, y):
    """pow(x,y): integer powers are polynomials; general exponent splits x^(c+r) = x^c * x^r."""
    c = y.const()
    if c is not None and c.denominator == 1 and abs(c) <= 12:
        return power(x, int(c))
    k = y.t.get((), Fraction(0))
    n = math.floor(k)
    if n and abs(n) <= 12:
        return mul(power(x, n), _powatom(x, sub(y, num(n))))
    if _neglead(y):
        return inverse(atom(("pow", x, neg(y))))
    return atom(("pow", x, y))


def _neglead(p):
    if not p.t:
        return False
    m = min(p.t, key=lambda m: (len(m), m))
    return p.t[m] < 0


def is_zero(p, depth=0):
    """p == 0 as a rational function: denominators cleared."""
    while True:
        if not p.t:
            return True
        best = None
        for m in p.t:
            for a, e in m:
                if _terms[a][0] == "inv" and e > 0:
                    if best is None or a > best:
                        best = a
        if best is None:
            # negative powers only shift monomials; nothing else to clear
            return combine_phi_zero(p, depth)
        q = _terms[best][1]
        top = max(e for m in p.t for a, e in m if a == best)
        r = ZERO
        groups = {}
        for m, c in p.t.items():
            e = dict(m).get(best, 0)
            rest = tuple(x for x in m if x[0] != best)
            groups.setdefault(e, {})[rest] = c
        for e, t in groups.items():
            r = add(r, mul(Poly(t), power(q, top - e)))
        p = r


def combine_phi_zero(p, depth):
    """split on the condition of a gated value: zero under both outcomes."""
    for m in p.t:
        for a, e in m:
            t = _terms[a]
            if t[0] == "phi":
                if depth > 12:
                    return False
                c = t[1]
                return is_zero(assume(p, c, True), depth + 1) and is_zero(assume(p, c, False), depth + 1)
    # conditions nested in other atoms
    c = find_cond(p)
    if c is not None and depth <= 8:
        return is_zero(assume(p, c, True), depth + 1) and is_zero(assume(p, c, False), depth + 1)
    return False


def equal(a, b):
    return a == b or is_zero(sub(a, b))


def _children(x):
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m:
                yield _terms[a]
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (tuple, Poly)):
                yield y


def find_cond(x, seen=None):
    """some phi condition occurring anywhere inside x."""
    if seen is None:
        seen = set()
    if id(x) in seen:
        return None
    seen.add(id(x))
    if isinstance(x, tuple) and x and x[0] == "phi":
        return x[1]
    for y in _children(x):
        r = find_cond(y, seen)
        if r is not None:
            return r
    return None


def rewrite(x, f, memo=None):
    """bottom-up rewriting of terms: f(term) -> Poly replacement, or None to keep."""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        k = ("P", x)
        if k in memo:
            return memo[k]
        changed = False
        r = ZERO
        keep = {}
        for m, c in x.t.items():
            fac = None
            rest = []
            for a, e in m:
                v = rewrite_atom(a, f, memo)
                if v is None:
                    rest.append((a, e))
                else:
                    changed = True
                    pw = power(v, e)
                    fac = pw if fac is None else mul(fac, pw)
            if fac is None:
                keep[m] = c
            else:
                r = add(r, mul(Poly({tuple(rest): c}), fac))
        out = add(Poly(keep), r) if changed else x
        memo[k] = out
        return out
    if isinstance(x, tuple):
        if x and x[0] in _CONDK:
            return rewrite_cond(x, f, memo)
        ch = False
        o = []
        for y in x:
            if isinstance(y, (tuple, Poly)):
                z = rewrite(y, f, memo)
                if z is not y:
                    ch = True
                o.append(z)
            else:
                o.append(y)
        return tuple(o) if ch else x
    return x


_CONDK = ("lt", "eq", "not", "and", "or", "T", "F", "b")


def rewrite_cond(c, f, memo):
    k = c[0]
    if k in ("T", "F"):
        return c
    if k == "lt":
        p = rewrite(c[1], f, memo)
        return c if p is c[1] else lt0(p)
    if k == "eq":
        p = rewrite(c[1], f, memo)
        return c if p is c[1] else eq0(p)
    if k == "b":
        t = c[1]
        v = f(("cond", c))
        if v is not None:
            return v
        z = rewrite(t, f, memo)
        return c if z is t else ("b", z)
    if k == "not":
        return cnot(rewrite_cond(c[1], f, memo))
    if k == "and":
        return cand(rewrite_cond(c[1], f, memo), rewrite_cond(c[2], f, memo))
    if k == "or":
        return cor(rewrite_cond(c[1], f, memo), rewrite_cond(c[2], f, memo))
    return c


def rewrite_atom(a, f, memo):
    k = ("A", a)
    if k in memo:
        return memo[k]
    t = _terms[a]
    v = f(t)
    if v is None:
        t2 = rewrite(t, f, memo)
        if t2 is not t and t2 != t:
            v = f(t2)
            if v is None:
                v = rebuild(t2)
    memo[k] = v
    return v


def rebuild(t):
    """re-normalise a term whose children changed."""
    k = t[0]
    if k in ("sqrt", "sin", "cos", "tan", "exp", "log", "pow", "fabs", "tanh", "sinh", "cosh", "atan", "asin"):
        return fn(*t)
    if k == "inv":
        return inverse(t[1])
    if k == "phi":
        return phi(t[1], t[2], t[3])
    if k == "idiv":
        return idiv(t[1], t[2])
    if k == "imod":
        return imod(t[1], t[2])
    if k == "b2i":
        return b2i(t[1])
    if k == "sum":
        return mksum(t[1], t[2], t[3])
    return atom(t)


def phi(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    if c[0] == "not":
        return phi(c[1], b, a)
    if isinstance(a, Poly) and isinstance(b, Poly):
        a2 = assume(a, c, True)
        b2 = assume(b, c, False)
        if a2 == b2:
            return a2
        return atom(("phi", c, a2, b2))
    return ("phi", c, a, b)


def b2i(c):
    if c == T:
        return ONE
    if c == F:
        return ZERO
    return phi(c, ONE, ZERO)


def idiv(a, b):
    x, y = a.const(), b.const()
    if x is not None and y is not None and y != 0:
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y > 0) else -q)
    if y == 1:
        return a
    if a == b:
        return ONE
    if y is not None and y != 0 and all(e > 0 for m in a.t for _, e in m) and all((c / y).denominator == 1 for c in a.t.values()):
        return scale(a, Fraction(1) / y)
    # exact division of a monomial multiple: (k*b)/b
    if not b.is_const():
        d = div(a, b)
        if d.is_const() and d.const().denominator == 1:
            return d
    return atom(("idiv", a, b))


def imod(a, b):
    x, y = a.const(), b.const()
    if x is not None and y is not None and y != 0:
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    if y == 1:
        return ZERO
    if y is not None and y != 0 and all(e > 0 for m in a.t for _, e in m) and all((c / y).denominator == 1 for c in a.t.values()):
        return ZERO
    return atom(("imod", a, b))


# ---- conditions
T = ("T",)
F = ("F",)


def lt0(p):
    c = p.const()
    if c is not None:
        return T if c < 0 else F
    return ("lt", _possscale(p))


def _possscale(p):
    """divide by the positive absolute value of the leading coefficient."""
    m = min(p.t, key=lambda m: (len(m), m))
    k = abs(p.t[m])
    return p if k == 1 else scale(p, 1 / k)


def eq0(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    m = min(p.t, key=lambda m: (len(m), m))
    k = p.t[m]
    return ("eq", p if k == 1 else scale(p, 1 / k))


def cmpc(op, a, b):
    d = sub(a, b)
    if op == "<":
        return lt0(d)
    if op == ">":
        return lt0(neg(d))
    if op == "<=":
        return cnot(lt0(neg(d)))
    if op == ">=":
        return cnot(lt0(d))
    if op == "==":
        return eq0(d)
    if op == "!=":
        return cnot(eq0(d))
    raise ValueError(op)


def cnot(c):
    if c == T:
        return F
    if c == F:
        return T
    if c[0] == "not":
        return c[1]
    return ("not", c)


def cand(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T:
        return a
    if a == b:
        return a
    if a == cnot(b):
        return F
    return ("and", a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def literals(c, pos=True):
    """conjuncts implied by c being true, as (cond, bool) pairs (atoms)."""
    if c[0] == "not":
        return literals(c[1], not pos)
    if c[0] == "and" and pos:
        return literals(c[1]) + literals(c[2])
    if c[0] == "or" and not pos:
        return literals(c[1], False) + literals(c[2], False)
    return [(c, pos)]


def decide(c, facts):
    """truth of c given a dict atomcond -> bool; None when unknown."""
    k = c[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if c in facts:
        return facts[c]
    if k == "not":
        r = decide(c[1], facts)
        return None if r is None else not r
    if k == "and":
        a, b = decide(c[1], facts), decide(c[2], facts)
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None
    if k == "or":
        a, b = decide(c[1], facts), decide(c[2], facts)
        if a or b:
            return True
        if a is False and b is False:
            return False
        return None
    if k in ("lt", "eq"):
        return _decide_lin(c, facts)
    return None


def _decide_lin(c, facts):
    """p<0 / p==0 from known facts on polynomials differing from p by a constant (integers assumed where exact)."""
    p = c[1]
    k0 = p.t.get((), Fraction(0))
    core = {m: v for m, v in p.t.items() if m != ()}
    ncore = {m: -v for m, v in core.items()}
    lo = hi = None      # bounds of core value
    neqs = []
    for fc, tv in facts.items():
        if fc[0] not in ("lt", "eq"):
            continue
        q = fc[1]
        qc = {m: v for m, v in q.t.items() if m != ()}
        qk = q.t.get((), Fraction(0))
        s = None
        if qc == core:
            s = 1
        elif qc == ncore:
            s = -1
        else:
            continue
        # s*core + qk <0 / ==0 / not
        if fc[0] == "eq":
            if tv:
                lo = hi = -qk * s
            else:
                neqs.append(-qk * s)
        else:
            if tv:   # s*core < -qk
                if s == 1:
                    hi = -qk if hi is None else min(hi, -qk)
                    hs = True
                else:
                    lo = qk if lo is None else max(lo, qk)
            else:    # s*core >= -qk
                if s == 1:
                    lo = -qk if lo is None else max(lo, -qk)
                else:
                    hi = qk if hi is None else min(hi, qk)
    # note: strictness is dropped, so answers use non-strict knowledge only
    if c[0] == "lt":
        # core < -k0 ?
        if hi is not None and hi < -k0:
            return True
        if lo is not None and lo >= -k0:
            return False
    else:
        if lo is not None and lo == hi and lo == -k0:
            return True
        if (lo is not None and lo > -k0) or (hi is not None and hi < -k0):
            return False
        if -k0 in neqs:
            return False
    return None


_assume_cache = {}


def assume(x, c, val):
    """simplify the phis inside x knowing cond c has truth value val."""
    key = (x, c, val)
    if key in _assume_cache:
        return _assume_cache[key]
    facts = {}
    for a, v in literals(c, val):
        facts[a] = v
    facts[c] = val
    r = simplify(x, facts)
    _assume_cache[key] = r
    return r


def simplify(x, facts):
    if not facts:
        return x
    if find_cond(x) is None:
        return x

    def f(t):
        if t[0] == "phi":
            d = decide(t[1], facts)
            if d is True:
                return simplify(t[2], facts) if isinstance(t[2], (Poly, tuple)) else t[2]
            if d is False:
                return simplify(t[3], facts) if isinstance(t[3], (Poly, tuple)) else t[3]
        return None
    return rewrite(x, f)


def csimplify(c, facts):
    d = decide(c, facts)
    if d is True:
        return T
    if d is False:
        return F
    k = c[0]
    if k == "not":
        return cnot(csimplify(c[1], facts))
    if k == "and":
        return cand(csimplify(c[1], facts), csimplify(c[2], facts))
    if k == "or":
        return cor(csimplify(c[1], facts), csimplify(c[2], facts))
    return c


# ---- summation over an integer counter 0..n-1
def mksum(lv, n, body):
    """sum_{lv=0}^{n-1} body, canonical: factors free of lv pulled out, linear over terms, bound variable renamed."""
    if not body.t:
        return ZERO
    c = n.const()
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 1:
        return subst(body, {lv: ZERO})
    la = atom_id(lv)
    r = ZERO
    groups = {}
    for m, k in body.t.items():
        free = []
        dep = []
        for a, e in m:
            (dep if occurs(lv, _terms[a]) else free).append((a, e))
        groups.setdefault(tuple(dep), {})
        g = groups[tuple(dep)]
        g[tuple(free)] = g.get(tuple(free), 0) + k
    for dep, t in groups.items():
        coef = Poly(t)
        if not dep:
            r = add(r, mul(coef, n))
            continue
        b = Poly({dep: Fraction(1)})
        # canonical bound variable name: depth based
        d = 1 + maxbound(b)
        nv = ("bv", d)
        b1 = subst(b, {lv: atom(nv)})
        b2 = subst(b, {lv: sub(sub(n, ONE), atom(nv))})
        bb = min((b1, b2), key=termkey)
        r = add(r, mul(coef, atom(("sum", nv, n, bb))))
    return r


_tk = {}


def termkey(x):
    if isinstance(x, Poly):
        k = _tk.get(x)
        if k is None:
            k = "{" + "+".join(sorted("%s*%s" % (c, "*".join("%s^%d" % (termkey(_terms[a]), e) for a, e in sorted(m, key=lambda z: termkey(_terms[z[0]])))) for m, c in x.t.items())) + "}"
            _tk[x] = k
        return k
    if isinstance(x, tuple):
        return "(" + ",".join(termkey(y) for y in x) + ")"
    return repr(x)


def maxbound(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "bv":
            return x[1]
        if x and x[0] == "sum":
            return max([x[1][1]] + [maxbound(y) for y in _children(x)])
    return max([0] + [maxbound(y) for y in _children(x)])


_occ = {}


def occurs(t, x):
    """does term t occur inside x."""
    if x == t:
        return True
    if isinstance(x, Poly) or isinstance(x, tuple):
        k = (t, x)
        r = _occ.get(k)
        if r is None:
            r = any(occurs(t, y) for y in _children(x))
            _occ[k] = r
        return r
    return False


def subst(x, mp):
    """replace atoms (terms) by polynomials."""
    def f(t):
        return mp.get(t)
    return rewrite(x, f)


def evalf(p, env=None):
    """numeric value of a closed polynomial (constants, sqrt, pow ...); None when an unknown occurs."""
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            x = evalterm(_terms[a], env)
            if x is None:
                return None
            v *= x ** e
        s += v
    return s


def evalterm(t, env):
    if env and t in env:
        return env[t]
    k = t[0]
    if k in ("sqrt", "sin", "cos", "exp", "log", "tanh", "sinh", "cosh", "atan", "asin", "fabs"):
        v = evalf(t[1], env)
        if v is None:
            return None
        return getattr(math, k)(v)
    if k == "inv":
        v = evalf(t[1], env)
        return None if not v else 1.0 / v
    if k == "pow":
        a, b = evalf(t[1], env), evalf(t[2], env)
        return None if a is None or b is None else a ** b
    return None


# ---- printing
def show(x, d=0):
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda z: (len(z[0]), z[0])):
            fs = []
            for a, e in m:
                s = show(_terms[a], d + 1)
                fs.append(s if e == 1 else "%s^%d" % (s, e))
            if not fs:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(fs))
            elif c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append("%s*%s" % (c, "*".join(fs)))
        s = " + ".join(out)
        return s if len(out) == 1 or d == 0 else "(" + s + ")"
    if isinstance(x, tuple):
        if not x:
            return "()"
        k = x[0]
        if k == "in":
            return show(x[1], d + 1)
        if k == "F":
            b = show(x[1], d + 1)
            n = str(x[2]).split("::")[-1]
            return n if b == "this" else b + "." + n
        if k == "D":
            return "*" + show(x[1], d + 1)
        if k == "L":
            return str(x[3]) if len(x) > 3 else "L%s" % (x[2],)
        if k == "G":
            return str(x[1])
        if k == "E":
            return show(x[1], d + 1) + "[" + ",".join(show(i, 0) for i in x[2]) + "]"
        if k == "lv":
            return "%s" % (x[2] if len(x) > 2 else "n%s" % x[1])
        if k == "this":
            return "this"
        return k + "(" + ", ".join(show(y, 0) if isinstance(y, (tuple, Poly)) else str(y) for y in x[1:]) + ")" if isinstance(k, str) else repr(x)
    return repr(x)
