"""C14: the initial state is the test case evaluated at every node, in the variables and frame of the model."""
import stdmodel
from gll import *
from c13 import patch
from c10 import Stop

S5 = 5


def driver(c, prog):
    """the drivers reach the patches with the physical constants, the time and the options of the test case in place."""
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    void = ("opq", ("void",))
    M = ("this",)
    fld = lambda o, q: ("F", o, q)

    def interp(hook):
        I = new_interp(prog)
        stdmodel.enable(I, hook)
        return I

    def events(s):
        r = []
        for e, cond, loops in flatten(trace_list(s.trace)):
            if e[0] == "do":
                r.append((e[1:], cond, loops))
        return r

    # Model::SetTestCase
    q = "Model::SetTestCase"
    f = prog.fn(q)
    for rest in (False, True):
        for pert in (False, True):
            def hook(I, st, fr, n, key, qual, place, args):
                m = qual.split("::")[-1]
                if m == "EvaluatePhysicalConstants":
                    st.event("do", "constants", I.obj_place(args[0], st, fr))
                    return void
                if m in ("EvaluateTestCase", "EvaluateTestCase_Perturbation"):
                    st.event("do", m, str(place), I.obj_place(args[1], st, fr), I.as_num(I.ev(args[2], st, fr)) if len(args) > 2 and args[2] is not None and args[2][0] != "default" else ZERO)
                    return void
                return NotImplemented
            I = interp(hook)
            st = State()
            st.store[fld(M, "Model::m_fGridFromRestartFile")] = T if rest else F
            st.store[fld(M, "Model::m_fRestartPerturbation")] = T if pert else F
            s, r = run_function(I, f, M, {}, st)
            c.functions |= set(I.fnlog)
            ev = events(s)
            want = [("constants",)] + ([("EvaluateTestCase",)] if not rest else [("EvaluateTestCase_Perturbation",)] if pert else [])
            bad = None
            if [(e[0],) for e, cd, lp in ev] != want or any(cd != T or lp for e, cd, lp in ev):
                bad = "calls %s" % ([e[0] for e, cd, lp in ev],)
            elif ev[0][0][1] != fld(M, "Model::m_phys"):
                bad = "constants of %s" % (ev[0][0][1],)
            elif len(ev) > 1 and (ev[1][0][2] != fld(M, "Model::m_timeStart") or ev[1][0][3] != ZERO or "m_pGrid" not in ev[1][0][1]):
                bad = "evaluated with %s" % (ev[1][0],)
            c.ob("driver", W(q), bad is None, "restart %s, perturbation %s: constants first, then %s%s" % (rest, pert, want[1:], ": " + bad if bad else ""), "driver|SetTestCase|%s|%s" % (rest, pert))

    # Grid::EvaluateTestCase
    for q in ("Grid::EvaluateTestCase", "GridGLL::EvaluateTestCase", "Grid::EvaluateTestCase_Perturbation"):
        f = prog.fn(q)
        G = ("this",)
        for di, dv in ((0, 0), (1, 0), (1, 1)):
            SC, VC = num(di), num(dv)
            ref, ray = atom(("ref",)), atom(("ray",))

            def hook(I, st, fr, n, key, qual, place, args):
                m = qual.split("::")[-1]
                if m == "GetZtop" and qual.startswith("TestCase"):
                    return atom(("ztop",))
                if m == "HasReferenceState" and qual.startswith("TestCase"):
                    return T if di else F
                if m == "HasRayleighFriction" and qual.startswith("TestCase"):
                    return T if dv else F
                if m == "GetUniformDiffusionCoeffs":
                    I.store_to(st, I.lv(args[0], st, fr), SC, None)
                    I.store_to(st, I.lv(args[1], st, fr), VC, None)
                    return void
                if m == "size":
                    return num(2)
                if m.startswith("EvaluateTestCase") and qual.startswith("GridPatch"):
                    v = I.load(st, fld(G, "Grid::m_dZtop") if False else ("DS", fld(G, "Grid::m_dZtop")), "f")
                    st.event("do", m, str(place), v, I.as_num(I.ev(args[2], st, fr)), I.obj_place(args[1], st, fr))
                    return void
                if m == "ApplyDSS":
                    st.event("do", m, I.as_num(I.ev(args[0], st, fr)), I.as_num(I.ev(args[1], st, fr)))
                    return void
                return NotImplemented
            I = interp(hook)
            I.unroll = 4
            st = State()
            s, r = run_function(I, f, G, {"iDataIndex": num(3)} if f.params[-1][1] == "iDataIndex" else {f.params[-1][1]: num(3)}, st)
            c.functions |= set(I.fnlog)
            ev = events(s)
            bad = None
            name = q.split("::")[-1]
            pat = [e for e, cd, lp in ev if e[0] == name and cd == T and not lp]
            if len(pat) != 2 or len(set(e[1] for e in pat)) != 2 or not all("m_vecActiveGridPatches" in e[1] for e in pat):
                bad = "patches evaluated: %s" % ([e[1] for e in pat],)
            elif any(e[3] != num(3) or e[4] != ("P", f.params[1][1]) and e[4] != ("D", ("P", f.params[1][1])) for e in pat):
                bad = "evaluated with %s" % (pat[0][3:],)
            elif name == "EvaluateTestCase":
                if any(e[2] != atom(("ztop",)) for e in pat):
                    bad = "model top is %s when the patches are evaluated" % (pat[0][2],)
                want = {"m_dZtop": atom(("ztop",)), "m_fHasReferenceState": T if di else F, "m_fHasRayleighFriction": T if dv else F,
                        "m_fHasUniformDiffusion": T if di or dv else F, "m_dScalarUniformDiffusionCoeff": SC, "m_dVectorUniformDiffusionCoeff": VC}
                for k, w in sorted(want.items()):
                    v = I.load(s, ("DS", fld(G, "Grid::" + k)), "f" if k[2] == "d" else "b")
                    if v != w:
                        bad = bad or "%s is %s" % (k, v)
            if q.startswith("GridGLL") and bad is None:
                d = [i for i, (e, cd, lp) in enumerate(ev) if e[0] == "ApplyDSS" and cd == T and not lp and e[1:] == (ZERO, num(enum_value(prog, "DataType_TopographyDeriv")))]
                last = max(i for i, x in enumerate(ev) if x[0][0] == name)
                if not [i for i in d if i > last]:
                    bad = "derivatives of the topography are not averaged after the patches are evaluated"
            c.ob("driver", W(q), bad is None, "options (%d, %d): every active patch, options of the test case in place%s" % (di, dv, ": " + bad if bad else ""), "driver|%s|%d%d" % (q, di, dv))
    c.need("driver", 13)


def run(c):
    prog = Program(sources())
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    eqt = {2: const(prog, "EquationSet::ShallowWaterEquations"), 3: const(prog, "EquationSet::PrimitiveNonhydrostaticEquations")}
    void = ("opq", ("void",))
    T_, F_ = ("T",), ("F",)

    def setup(cls, kw, ref, ray):
        P = patch(prog, c, cls, **kw)
        P.given["m_eEquationSetType"] = num(eqt[P.dim])
        if P.dim == 2:
            P.given["m_dZtop"] = num(1)

        def hook(I, st, fr, n, key, q, place, args):
            m = q.split("::")[-1]
            if m == "HasReferenceState":
                return T_ if ref else F_
            if m in ("HasRayleighFriction", "GetHasRayleighFriction"):
                return T_ if ray else F_
            if m == "size":
                return num(P.ninst)
            if q == "TestCase::EvaluateTopography":
                return atom(("height",) + tuple(I.as_num(I.ev(x, st, fr)) for x in args[-2:]))
            if q == "TestCase::EvaluateRayleighStrength":
                return atom(("rayleigh",) + tuple(I.as_num(I.ev(x, st, fr)) for x in args[-3:]))
            if q.startswith("TestCase::Evaluate") and m in ("EvaluatePointwiseState", "EvaluatePointwisePerturbation", "EvaluateReferenceState"):
                k = 2 if m != "EvaluateReferenceState" else 1
                pos = tuple(I.as_num(I.ev(x, st, fr)) for x in args[k:k + 3])
                tm = I.ev(args[1], st, fr) if k == 2 else None
                if k == 2 and str(tm) != str(P.time):
                    P.time = tm if P.time is None else "mixed"
                for nm, a, cnt in zip(("S", "T"), args[k + 3:], (P.comps, P.ntr)):
                    if cnt == 0:
                        continue
                    v = I.ev(a, st, fr)
                    for x in range(cnt):
                        I.store_to(st, I.index_place(v, (num(x),)), atom((m, nm, num(x)) + pos), None)
                return void
            if m in ("CoVecTransABPFromRLL", "VecTransABPFromRLL"):
                x = [I.as_num(I.ev(a, st, fr)) for a in args[:5]]
                pl = [I.lv(a, st, fr) for a in args[5:7]]
                for k in (0, 1):
                    I.store_to(st, pl[k], atom((m, k) + tuple(x)), None)
                return void
            return NotImplemented
        P.time = None
        P.extra.append(hook)
        P.call(cls + "::InitializeCoordinateData")
        if P.cs:
            for nm, tot in (("X", P.sa), ("Y", P.sb)):
                for i in range(tot):
                    P.set(P.F("GridPatchCSGLL::m_d%sNode" % nm), (i,), atom((nm, num(i))))
        return P

    R = atom(("radius",))

    def expected(P, what, i, j, k, edge):
        """components of the state (converted) at a node."""
        pos = tuple(P.get(P.arr(x), *ix) for x, ix in (("m_dataZInterfaces" if edge else "m_dataZLevels", (i, j, k)), ("m_dataLon", (i, j)), ("m_dataLat", (i, j))))
        s = [atom((what, "S", num(x)) + pos) for x in range(P.comps)]
        if P.cs:
            v = [atom(("CoVecTransABPFromRLL", x, atom(("X", num(i))), atom(("Y", num(j))), num(P.panel), mul(R, s[0]), mul(R, s[1]))) for x in (0, 1)]
            s[0], s[1] = v
        if P.dim == 3:
            s[2] = mul(s[2], s[4])
        return s, [atom((what, "T", num(x)) + pos) for x in range(P.ntr)], pos

    hydro = dict(comps=5, ntr=2, dim=3)
    sw = dict(comps=3, ntr=0, dim=2, nlev=1)
    cases = [("GridPatchCSGLL", dict(na=1, nb=1, order=2, a0=1, b0=2, panel=1, nlev=2, **hydro)), ("GridPatchCSGLL", dict(na=1, nb=1, order=2, a0=0, b0=0, panel=4, **sw)),
             ("GridPatchCartesianGLL", dict(na=1, nb=1, order=2, a0=1, b0=2, panel=0, nlev=2, **hydro))]
    if c.tier == "thorough":
        cases += [("GridPatchCSGLL", dict(na=2, nb=1, order=3, a0=1, b0=2, panel=p, nlev=3, **hydro)) for p in (0, 5)]
        cases += [("GridPatchCartesianGLL", dict(na=2, nb=1, order=3, a0=0, b0=1, panel=0, nlev=3, comps=5, ntr=0, dim=3))]
    for cls, kw in cases:
        tag = "%s, %s" % (cls, ", ".join("%s %s" % (k, v) for k, v in sorted(kw.items())))
        for ref in (True, False):
            for inst in (0, 1):
                P = setup(cls, kw, ref, True)
                q = cls + "::EvaluateTestCase"
                f = prog.fn(q)
                key = "%s|%s|%s|%s" % (cls, sorted(kw.items()), ref, inst)
                lab = "%s, copy %d%s" % (tag, inst, ", reference state" if ref else "")
                try:
                    P.call(f, {f.params[-1][1]: num(inst)})
                    bad = P.bad
                    rb = None
                    for i in range(P.sa):
                        for j in range(P.sb):
                            for edge in (0, 1):
                                for k in range(P.nlev + edge):
                                    nd = "node (%d, %d), %s %d" % (i - 1, j - 1, "interface" if edge else "level", k)
                                    s, t, pos = expected(P, "EvaluatePointwiseState", i, j, k, edge)
                                    a = ("E", P.arr("m_datavecStateREdge" if edge else "m_datavecStateNode"), (num(inst),))
                                    for x in range(P.comps):
                                        if P.get(a, x, i, j, k) != s[x]:
                                            bad = bad or "%s: component %d is %.160s" % (nd, x, P.get(a, x, i, j, k))
                                    if not edge:
                                        a = ("E", P.arr("m_datavecTracers"), (num(inst),))
                                        for x in range(P.ntr):
                                            if P.get(a, x, i, j, k) != t[x]:
                                                bad = bad or "%s: tracer %d is %.160s" % (nd, x, P.get(a, x, i, j, k))
                                    a = P.arr("m_dataRayleighStrength" + ("REdge" if edge else "Node"))
                                    if P.get(a, i, j, k) != atom(("rayleigh",) + pos):
                                        rb = rb or "%s: strength of the friction is %.160s" % (nd, P.get(a, i, j, k))
                                    if ref:
                                        s, t, pos = expected(P, "EvaluateReferenceState", i, j, k, edge)
                                        a = P.arr("m_dataRefState" + ("REdge" if edge else "Node"))
                                        for x in range(P.comps):
                                            if P.get(a, x, i, j, k) != s[x]:
                                                bad = bad or "%s: component %d of the reference state is %.160s" % (nd, x, P.get(a, x, i, j, k))
                                        for x in range(P.ntr if not edge else 0):
                                            if P.get(P.arr("m_dataRefTracers"), x, i, j, k) != t[x]:
                                                bad = bad or "%s: reference tracer %d is %.160s" % (nd, x, P.get(P.arr("m_dataRefTracers"), x, i, j, k))
                except Undefined as e:
                    c.ob("initial", W(q), None, "%s: %s" % (lab, e), "initial|" + key)
                    continue
                c.ob("initial", W(q), bad is None, "%s: state, tracers and reference state at every node%s" % (lab, ": " + bad if bad else ""), "initial|" + key)
                c.ob("initial", W(q), rb is None, "%s: Rayleigh friction at every node%s" % (lab, ": " + rb if rb else ""), "rayleigh|" + key)
        # ---- perturbation of a restarted state
        P = setup(cls, kw, False, False)
        q = cls + "::EvaluateTestCase_Perturbation"
        f = prog.fn(q)
        key = "%s|%s" % (cls, sorted(kw.items()))
        try:
            P.call(f, {f.params[-1][1]: num(1)})
            bad = P.bad
            for i in range(P.sa):
                for j in range(P.sb):
                    for edge in (0, 1):
                        for k in range(P.nlev + edge):
                            nd = "node (%d, %d), %s %d" % (i - 1, j - 1, "interface" if edge else "level", k)
                            s, t, pos = expected(P, "EvaluatePointwisePerturbation", i, j, k, edge)
                            a = ("E", P.arr("m_datavecStateREdge" if edge else "m_datavecStateNode"), (num(1),))
                            old = [P.I.load_elem(State(), ("E", a, tuple(num(v) for v in (x, i, j, k))), "f") for x in range(P.comps)]
                            if P.dim == 3:
                                s[2] = mul(old[4], atom(("EvaluatePointwisePerturbation", "S", num(2)) + pos))
                            for x in range(P.comps):
                                if P.get(a, x, i, j, k) != add(old[x], s[x]):
                                    bad = bad or "%s: component %d is %.160s" % (nd, x, P.get(a, x, i, j, k))
                            a = ("E", P.arr("m_datavecTracers"), (num(1),))
                            for x in range(P.ntr if not edge else 0):
                                o = P.I.load_elem(State(), ("E", a, tuple(num(v) for v in (x, i, j, k))), "f")
                                if P.get(a, x, i, j, k) != add(o, t[x]):
                                    bad = bad or "%s: tracer %d is %.160s" % (nd, x, P.get(a, x, i, j, k))
            c.ob("perturbation", W(q), bad is None, "%s: the perturbation is added to the restarted state%s" % (tag, ": " + bad if bad else ""), "perturbation|" + key)
        except Undefined as e:
            c.ob("perturbation", W(q), None, "%s: %s" % (tag, e), "perturbation|" + key)
    driver(c, prog)
    c.need("initial", 12)
    c.need("perturbation", 3)
    return c.finish("proof", "The functions that evaluate a test case are interpreted with the test case left uninterpreted; the content of every array is compared with the test case at the position of its node.",
                    {"initial": "state, tracers, reference state and friction of every node, level and interface, halo included",
                     "perturbation": "every component of a restarted state gains the perturbation at its node"})
