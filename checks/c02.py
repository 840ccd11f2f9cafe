"""C02: every selectable time-integration scheme attains its formal order of accuracy."""
from slots import *
from c01 import label, all_cases, where_of

TOL = 1e-8

# scheme -> (order for the coupled explicit/implicit system, order of the explicit part alone)
EXPLICIT = {"ForwardEuler": 1, "RungeKutta4": 4, "RungeKuttaSSP3": 3, "KinnmarkGrayUllrich35": 3, "RungeKuttaSSPRK53": 3}
IMEX = {"TimestepSchemeARS222": (2, 2), "TimestepSchemeARS232": (2, 2), "TimestepSchemeARK232": (2, 2), "TimestepSchemeARS343": (3, 3),
        "TimestepSchemeARS343b": (3, 3), "TimestepSchemeARS443": (3, 3), "TimestepSchemeSSP3332": (2, 3), "TimestepSchemeGARK2": (2, 2), "TimestepSchemeARK4": (4, 4)}


def expected(lab, first):
    """[(colours, order)]"""
    cls = lab.split(":")[0]
    ex = [EXPLICIT[p] for p in lab.split(":")[1:] if p in EXPLICIT]
    p = ex[0] if ex else 3
    if cls == "TimestepSchemeERK":
        return [("H", p)]
    if cls == "TimestepSchemeStrang":
        # a start-up step has no carried half step and is first order in the implicit part
        return [("H", p), ("HV", p), ("HVG", 1 if first else min(2, p))]
    if cls == "TimestepSchemeSplitExp":
        return [("H", 3), ("V", 1), ("HV", 1)]
    if cls in IMEX:
        q, p = IMEX[cls]
        return [("H", p), ("HV", p), ("HVG", q)]
    return [("H", 1)]


def run(c):
    prog = Program(sources())
    insts, subs = scheme_instances(prog)
    if len(insts) < 5:
        raise AnalysisBroken("only %d time schemes found" % len(insts))
    for inst in insts:
        lab = label(inst)
        done = False
        for ns in ((1, 2, 3, 4) if c.tier == "thorough" else (1, 2)):
            if done:
                break
            f2i = False
            for first, last, sim, r, _ in all_cases(prog, inst, ns, "HVG", 4):
                f2i = f2i or r["f2i"]
                c.functions |= set(r["fns"])
                if any(v[0] in ("stale-slot", "slot-range") for v in sim.viol) and sim.slots[STATE].get(0) is None:
                    c.ob("order", where_of(r), None, "%s: slot discipline broken" % lab)
                    continue
                for h in (1.0, 0.5):
                    if h != 1.0:
                        sim2 = SlotSim(None, lab, sim.colours, 4, r["counts"], prog)
                        y0 = BS(sim.TR, {EMPTY: 1.0})
                        for t in (STATE, TRACERS):
                            sim2.slots[t][0] = y0
                            for k, b in sim.entry.items():
                                sim2.slots[t][k] = BS(sim.TR, {x: v * h ** order(x) for x, v in b.a.items()})
                        sim2.run(sim.path, h)
                        f = {t: sim2.slots[t].get(0) for t in (STATE, TRACERS)}
                    else:
                        f = {t: sim.slots[t].get(0) for t in (STATE, TRACERS)}
                    for t in (STATE, TRACERS):
                        if f[t] is None:
                            continue
                        for cols, p in expected(lab, first):
                            for o in range(1, p + 1):
                                bad = []
                                n = 0
                                for tr in sim.TR[o]:
                                    if not colours_of(tr) <= set(cols):
                                        continue
                                    n += 1
                                    d = f[t].a.get(tr, 0.0) - h ** o / gamma(tr)
                                    if abs(d) > TOL:
                                        bad.append((showtree(tr), round(f[t].a.get(tr, 0.0), 6), round(h ** o / gamma(tr), 6)))
                                c.ob("order", where_of(r), not bad,
                                     "%s: %d order-%d conditions over tendencies %s for the %s%s" % (lab, n, o, cols, TNAME[t], "" if not bad else " (first=%s,last=%s): %s has weight %s instead of %s" % ((first, last) + bad[0])),
                                     "order|%s|%s" % (lab, TNAME[t]) + ("|order %d" % o if o > 1 else "|not even consistent"))
                                if bad:
                                    break
                        k = f[t].a.get(EMPTY, 0.0)
                        c.ob("consistency", where_of(r), abs(k - 1.0) <= TOL, "%s: weights of the final %s combination sum to %.9g" % (lab, TNAME[t], k), "consistency|%s|%s" % (lab, TNAME[t]))
            if not f2i:
                done = True
    c.need("order", 50)
    return c.finish("proof", "The operation sequence of every constructible scheme (constant propagation through constructor and Step) is executed over coloured B-series "
                    "(H: explicit horizontal, V: explicit vertical, G: implicit vertical tendencies) and compared with the exact flow tree by tree, up to the scheme's formal order, at two step sizes.",
                    {"order": "weight of every coloured rooted tree up to the formal order equals 1/gamma(tree)", "consistency": "the weights of the previous state sum to one"},
                    assumptions=["Implicit solves are exact; hyperdiffusion at the end of the step is not part of the order statement.",
                                 "Non-first steps of the operator-split scheme reuse the half-step increment with the same step size."])


def colours_of(t):
    s = {t[0]}
    for x in t[1]:
        s |= colours_of(x)
    return s
