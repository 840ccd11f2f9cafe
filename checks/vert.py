"""A vertical dynamics object next to one patch: column operators are the constants the grid's set-up folds to."""
from dyn import *

KCACHE = {}
OPS = ("m_opInterpNodeToREdge", "m_opInterpREdgeToNode", "m_opDiffNodeToNode", "m_opDiffNodeToREdge", "m_opDiffREdgeToNode", "m_opDiffREdgeToREdge", "m_opDiffDiffNodeToNode", "m_opDiffDiffREdgeToREdge", "m_opDiffNodeToNodeZeroBoundaries")


class Vert(Dyn):
    def __init__(self, prog, c, pcls, vorder=1, full=True, ref=False, levels=False, disc="FiniteElement", cls="VerticalDynamicsFEM", **kw):
        stag, nl = kw.get("stag", "Lorenz"), kw.setdefault("nlev", 4)
        key = (disc, stag, vorder, nl)
        if key not in KCACHE:
            K = Column(prog, c, 2, vorder, nl, disc, stag)
            K.vals[K.F("Grid::m_pVerticalStretchF")] = ("null",)
            K.call("GridGLL::InitializeVerticalCoordinate")
            K.call("GridGLL::Initialize")
            KCACHE[key] = K
        self.K = KCACHE[key]
        self.vorder, self.full, self.ref, self.levels, self.disc = vorder, full, ref, levels, disc
        Dyn.__init__(self, prog, c, cls, pcls, vorder=vorder, disc=disc, **kw)
        P = self.P
        fi = P.I.field_init

        def finit(pl, tc):
            t = self.swap(pl)
            if t is not None:
                return self.K.I.load(self.K.st, t, tc)
            return fi(pl, tc)
        P.I.field_init = finit
        self.flat = tuple(("F", DYN, cls + "::" + m) for m in ("m_matJacobianF", "m_matTracersLUDF"))
        th = P.through
        P.through = lambda pl: th(self.unflat(pl))
        P.given["m_nVerticalOrder"] = num(vorder)
        self.solves, self.ends = [], []
        for m, v in (("m_nHorizontalOrder", num(self.n)), ("m_nVerticalOrder", num(vorder)), ("m_nHypervisOrder", ZERO), ("m_dHypervisCoeff", ZERO),
                     ("m_fFullyExplicit", ("T",) if full else ("F",)), ("m_fUseReferenceState", ("T",) if ref else ("F",)), ("m_fForceMassFluxOnLevels", ("T",) if levels else ("F",))):
            self.member(m, v)

    def swap(self, pl):
        """the same place in the folded grid for a place inside of a column operator of the patch's grid."""
        if pl[0] == "F" and pl[1] == self.G:
            return ("F", ("G", "grid"), pl[2]) if "m_op" in pl[2] else None
        if pl[0] in ("F", "DS"):
            t = self.swap(pl[1])
            return None if t is None or pl[2].endswith("::m_dBuffer") else (pl[0], t) + tuple(pl[2:])
        return None

    def unflat(self, pl):
        """elements of a matrix addressed through the pointer to its first element."""
        if pl[0] == "E" and pl[1] in self.flat and len(pl[2]) == 2 and pl[1] in self.P.sizes:
            nr, ncol = self.P.sizes[pl[1]]
            if all(x.is_const() for x in pl[2]):
                i = pl[2][0].const() * ncol + pl[2][1].const()
                if 0 <= i < nr * ncol:
                    return ("E", pl[1], (num(i // ncol), num(i % ncol)))
        return pl

    def load(self, st, pl, tc, ld):
        if pl[0] == "E":
            t = self.swap(pl[1])
            if t is not None:
                return self.K.I.load_elem(self.K.st, ("E", t) + tuple(pl[2:]), tc)
        return Dyn.load(self, st, pl, tc, ld)

    def hook(self, I, st, fr, n, key, q, place, args):
        void = ("opq", ("void",))
        if q in ("memset", "memcpy"):
            p = I.ev(args[0], st, fr)
            nb = I.as_num(I.ev(args[2], st, fr))
            if not (nb.is_const() and nb.const() % 8 == 0 and p[1][0] == "E"):
                raise AnalysisBroken("%s of %s in %s" % (q, p, fr.fn.qual))
            s = I.ev(args[1], st, fr)
            for k in range(int(nb.const()) // 8):
                at = lambda x: self.at(x[1], k)
                I.store_to(st, at(p), ZERO if q == "memset" else I.load_elem(st, at(s), "f"), None)
            if q == "memset" and not (s.is_const() and s.const() == 0):
                raise AnalysisBroken("memset to %s" % s)
            return void
        m = q.split("::")[-1]
        if m == "FilterNegativeTracers":
            self.ends.append((I.ev(args[0], st, fr), len(self.solves)))
            return void
        if q in ("dgbsv_", "dgbtrf_", "dgbtrs_"):
            return self.lapack(q, [I.ev(x, st, fr) for x in args], I, st, fr)
        if q.startswith("Announce"):
            return void
        if q.startswith("DataArray") and place is not None and q.endswith(("::GetRows", "::GetColumns")):
            t = self.swap(place)
            if t is not None:
                s = self.K.size(t)
                if s is None:
                    s = (0, 0)         # never allocated
                return num(s[0 if q.endswith("Rows") else 1])
        return Dyn.hook(self, I, st, fr, n, key, q, place, args)

    def lapack(self, q, p, I, st, fr):
        """banded solvers: the matrix handed over is recorded, the solution is free."""
        place = lambda i: p[i][1]
        iv = lambda i: int(number(I.load(st, place(i), "i") if place(i)[0] != "E" else I.load_elem(st, place(i), "i")))
        elem = lambda i, k: self.P.through(self.at(place(i), k))
        get = lambda i, k: I.load_elem(st, elem(i, k), "f")
        m = {"dgbsv_": "solve", "dgbtrf_": "factor", "dgbtrs_": "back"}[q]
        sh = {"solve": (0, 1, 2, 4, 5, 3, 7, 8, 9), "factor": (1, 2, 3, 4, 5, None, None, None, 7), "back": (1, 2, 3, 5, 6, 4, 8, 9, 10)}[m]
        n, kl, ku, lda = iv(sh[0]), iv(sh[1]), iv(sh[2]), iv(sh[4])
        if m == "factor" and iv(0) != n:
            raise Undefined("%s in %s: matrix of %d by %d" % (q, fr.fn.qual, iv(0), n))
        if lda < 2 * kl + ku + 1:
            raise Undefined("%s in %s: leading dimension %d, the bands need %d" % (q, fr.fn.qual, lda, 2 * kl + ku + 1))
        size = self.P.shape(place(sh[3])[1])
        if n * lda > size[0] * size[1]:
            raise Undefined("%s in %s: the matrix needs %d elements, %d are there" % (q, fr.fn.qual, n * lda, size[0] * size[1]))
        if m == "back":
            tr = I.load(st, place(0), "i") if place(0)[0] != "E" else I.load_elem(st, place(0), "i")
            if number(tr) != ord("N") or self.lu[:5] != (place(sh[3]), n, kl, ku, lda):
                raise Undefined("%s in %s does not use the factorisation as it was made" % (q, fr.fn.qual))
            A = self.lu[5]
        else:
            A = {}
            for c_ in range(n):
                for r in range(max(0, c_ - ku), min(n, c_ + kl + 1)):
                    A[r, c_] = get(sh[3], c_ * lda + kl + ku + r - c_)
            out = [get(sh[3], c_ * lda + k) for c_ in range(n) for k in range(lda) if not (kl <= k <= 2 * kl + ku and 0 <= c_ + k - kl - ku < n)]
            if any(x != ZERO for x in out):
                raise Undefined("%s in %s: entries of the matrix outside of its bands are set" % (q, fr.fn.qual))
        if m == "factor":
            self.lu = (place(sh[3]), n, kl, ku, lda, A)
        else:
            if (iv(sh[5]), iv(sh[7])) != (1, n):
                raise Undefined("%s in %s: right hand side" % (q, fr.fn.qual))
            w = len(self.solves)
            self.solves.append((m, n, A, [get(sh[6], k) for k in range(n)]))
            for k in range(n):
                I.store_to(st, elem(sh[6], k), atom(("sol", w, k)), None)
        I.store_to(st, place(sh[8]), ZERO, None)
        return ZERO

    def at(self, pl, k):
        """element k from a pointer to (part of) an array."""
        s, ix = self.P.shape(pl[1]), tuple(pl[2])
        if s is None:
            raise AnalysisBroken("size of %s" % (pl[1],))
        if len(ix) < len(s):
            ix = ix + (ZERO,) * (len(s) - len(ix))
        if pl[1] in self.flat:
            return self.unflat(("E", pl[1], ix[:-1] + (add(ix[-1], num(k)),)))
        return ("E", pl[1], ix[:-1] + (add(ix[-1], num(k)),))

    def row(self, name, k):
        b, e, r = self.op(name)[k]
        return [(l, float(r[l])) for l in range(b, e)]

    def op(self, name):
        o = self.__dict__.setdefault("opc", {})
        if name not in o:
            o[name] = self.K.op(name)
        return o[name]
