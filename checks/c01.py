"""C01: every selectable time-integration scheme uses its data slots consistently."""
from slots import *


def label(inst):
    cls, ctor, args, where = inst
    lab = cls
    for a in args:
        if a[0] == "enum":
            lab += ":" + a[2].split("::")[-1]
        elif a[0] in ("flt", "int"):
            lab += ":" + str(a[2])
    return lab


def simulate(prog, inst, first, last, ns, colours, maxorder, entry=None):
    """(sim after the step, analysis result); entry: additional slots carried over from the previous step."""
    r = analyse(prog, inst, first, last, ns)
    if r is None:
        return None, None
    sims = []
    for path in r["paths"]:
        sim = SlotSim(None, label(inst), colours, maxorder, r["counts"], prog)
        y0 = BS(sim.TR, {EMPTY: 1.0})
        for t in (STATE, TRACERS):
            sim.slots[t][0] = y0
            for k, b in (entry or {}).items():
                sim.slots[t][k] = BS(sim.TR, dict(b.a))
        sim.run(path)
        sim.path, sim.entry = path, dict(entry or {})
        sims.append(sim)
    return sims, r


def carried(sim):
    """slots whose final content is exactly sum_c w_c * tendency_c(final state), for state and tracers alike:
    {slot: {colour: w}}.  Nothing else may be relied upon by the next step (physics may change slot 0 in between)."""
    out = {}
    y = sim.slots[STATE].get(0)
    if y is None:
        return out
    F = {c: y.f(c) for c in sim.colours}
    for k, b in sim.slots[STATE].items():
        bt = sim.slots[TRACERS].get(k)
        if k == 0 or b is None or bt is None or b.dist(bt) > 1e-9 or abs(b.a.get(EMPTY, 0.0)) > 1e-9:
            continue
        w = {c: b.a.get((c, ()), 0.0) for c in sim.colours}
        g = BS(sim.TR)
        for c in w:
            g = g.comb(1.0, F[c], w[c])
        if g.dist(b) < 1e-9:
            out[k] = w
    return out


def entry_from(w, TR, colours):
    y0 = BS(TR, {EMPTY: 1.0})
    out = {}
    for k, ws in w.items():
        g = BS(TR)
        for c in colours:
            g = g.comb(1.0, y0.f(c), ws[c])
        out[k] = g
    return out


def all_cases(prog, inst, ns, colours, maxorder):
    """(first, last, sim, result) for all four kinds of step; non-first steps start from the slots the previous
    step is shown to carry over, and must themselves re-establish them (invariant)."""
    inv = None
    for last in (False, True):
        sims, r = simulate(prog, inst, True, last, ns, colours, maxorder)
        if sims is None:
            raise AnalysisBroken("%s::Step always throws" % label(inst))
        for s in sims:
            yield True, last, s, r, True
            if not last:
                w = carried(s)
                inv = w if inv is None else {k: v for k, v in inv.items() if w.get(k) == v or k in w and max(abs(w[k][x] - v[x]) for x in v) < 1e-9}
    inv = inv or {}
    TR = trees(maxorder, colours)
    for attempt in range(6):
        sims, r = simulate(prog, inst, False, False, ns, colours, maxorder, entry_from(inv, TR, colours))
        keep = dict(inv)
        for s in sims:
            w = carried(s)
            keep = {k: v for k, v in keep.items() if k in w and max(abs(w[k][x] - v[x]) for x in v) < 1e-9}
        if keep == inv:
            break
        inv = keep
    for s in sims:
        yield False, False, s, r, True
    sims, r = simulate(prog, inst, False, True, ns, colours, maxorder, entry_from(inv, TR, colours))
    for s in sims:
        yield False, True, s, r, True


RULES = ("slot-range", "stale-slot", "tracer-lockstep", "inconsistent-stage", "unexchanged-slot", "subcycle-alias", "update-alias", "subcycle-dt")


def run(c):
    prog = Program(sources())
    insts, subs = scheme_instances(prog)
    if len(insts) < 5:
        raise AnalysisBroken("only %d time schemes found" % len(insts))
    for inst in insts:
        lab = label(inst)
        for ns in ((1, 2, 3, 4) if c.tier == "thorough" else (1, 2)):
            f2i = False
            for first, last, sim, r, _ in all_cases(prog, inst, ns, "HVG", 2):
                f2i = f2i or r["f2i"]
                c.functions |= set(r["fns"])
                seen = set()
                for rule, where, what in sim.viol:
                    seen.add(rule)
                    c.ob(rule, where, False, "%s (first=%s,last=%s): %s" % (lab, first, last, what), "%s|%s|%s" % (rule, lab, what))
                for rule in RULES:
                    if rule not in seen:
                        c.ob(rule, where_of(r), True, "%s: %d operations, %d slot reads" % (lab, sim.n, sim.reads))
                a, b = sim.slots[STATE].get(0), sim.slots[TRACERS].get(0)
                ok = a is not None and b is not None and a.dist(b) < 1e-9 and not sim.raw[STATE].get(0) and not sim.raw[TRACERS].get(0)
                c.ob("result-slot", where_of(r), ok, "%s (first=%s,last=%s): slot 0 holds the exchanged state and tracers of the same final stage" % (lab, first, last), "result-slot|%s" % lab)
                moved = a is not None and b is not None and all(any(x.a.get(t, 0.0) != 0.0 for t in sim.TR[1] if t[0] == "H") for x in (a, b))
                c.ob("result-advanced", where_of(r), moved, "%s: the new state and tracers include this step's tendencies" % lab, "result-advanced|%s" % lab)
            if not f2i:
                break
    c.need("stale-slot", 10)
    return c.finish("proof", "Every time scheme the drivers can construct is reduced, by constant propagation through its constructor and Step, to its sequence of slot operations "
                    "(for each combination of first/last step); the sequence is executed over slots that carry, separately for state and tracers, validity, post-processing status and the combination of tendencies they hold.",
                    {"slot-range": "slot indices and combinations stay inside the allocated instances", "stale-slot": "no slot is read (with non-zero weight) before this step wrote it",
                     "tracer-lockstep": "state and tracers of a slot are at the same stage whenever dynamics read it", "inconsistent-stage": "weights of a stage sum to one",
                     "unexchanged-slot": "an explicit update is averaged and exchanged before it is used", "result-slot": "slot 0 holds the complete result"},
                    assumptions=["The number of sub-steps of the split-explicit scheme, computed at run time, is analysed for small positive values."])


def where_of(r):
    s = r["step"]
    return (s.file, s.line, s.qual)


