"""C07: what one patch packs for a neighbour is exactly what the neighbour unpacks, cell by cell."""
from common import *
from absint import *
from funcs import Caller, value
from ident import nval, ncond, Undefined
from c03 import enum_value
from c06 import Geometry, SIDES, CORNERS, ALL, CS
import itertools

EX = "ExchangeBuffer::"
THIS = ("G", "exb")


def fld(n):
    return ("F", THIS, EX + n)


def ina(n):
    return ("in", fld(n))


def pick(prog, name, npar, const=None):
    fs = [f for f in prog.byqual.get(name, []) if len(f.params) == npar and f.body is not None]
    if len(fs) != 1:
        raise AnalysisBroken("expected one %s with %d parameters" % (name, npar))
    return fs[0]


class Unresolved(Exception):
    pass


def transfer(c, prog, f, d, rev, buf, cursor):
    """-> function(env) giving [(buffer index, (i, j, k))], plus cursor formula and refusal test."""
    I = new_interp(prog)
    I.log_stores = True
    st = State()
    st.store[fld("m_dir")] = num(d)
    st.store[fld("m_fReverseDirection")] = rev
    s, r = run_function(I, f, THIS, {}, st)
    c.functions |= set(I.fnlog)
    if s is None:
        return None
    data = ("P", f.params[0][1])
    B = fld(buf)
    moves, other = [], []
    for pl, v, w, path, loops in I.stores:
        if pl[0] == "E" and pl[1] in (B, data):
            moves.append((pl, v, w, path, list(loops)))
        elif pl[0] != "L" and pl != fld(cursor) and pl[0] != "T":
            other.append((pl, w))

    def cells(env):
        out = []
        for pl, v, w, path, loops in moves:
            if not isinstance(v, Poly) or len(v.t) != 1:
                raise Unresolved("value moved at line %s is not a plain copy" % (w[1],))
            (m, k), = v.t.items()
            if k != 1 or len(m) != 1 or m[0][1] != 1:
                raise Unresolved("value moved at line %s is not a plain copy" % (w[1],))
            src = sym.atom_term(m[0][0])
            if src[0] != "in" or src[1][0] != "E":
                raise Unresolved("value moved at line %s is not a plain copy" % (w[1],))
            src = src[1]
            if src[1] == pl[1] or {src[1], pl[1]} != {B, data}:
                raise Unresolved("copy at line %s is not between field and buffer" % (w[1],))

            def rec(k, e):
                if k == len(loops):
                    if not ncond(path, e):
                        return
                    di = [nval(x, e) for x in (pl if pl[1] == data else src)[2]]
                    bi = [nval(x, e) for x in (pl if pl[1] == B else src)[2]]
                    out.append((bi[0], tuple(di), pl[1] == B))
                    return
                L = loops[k]
                if L.count is None:
                    raise Unresolved("loop at line %s not summarised" % L.line)
                n = int(nval(L.count, e))
                for t in range(max(n, 0)):
                    e[L.lv] = t
                    rec(k + 1, e)
                e.pop(L.lv, None)
            rec(0, dict(env))
        return out
    return {"cells": cells, "cursor": I.load(s, fld(cursor), "i"), "throws": [t[0] for t in I.throws], "other": other, "data": data, "buf": B}


def env_for(T, cursor, sA, sB, sR, H, first, second, start, rows):
    D = T["data"]
    return {("extent", D, ZERO): sA, ("extent", D, ONE): sB, ("extent", D, num(2)): sR, ina("m_sHaloElements"): H, ina("m_ixFirst"): first, ina("m_ixSecond"): second,
            ina(cursor): start, ("extent", T["buf"], ZERO): rows}


def run(c):
    prog = Program(sources())
    call = Caller(prog, c)
    G = Geometry(call)
    D = {n: enum_value(prog, "Direction_" + n) for n in list(ALL) + ["Middle", "Unreachable"]}
    pack, unpack = pick(prog, EX + "Pack", 1), pick(prog, EX + "Unpack", 1)
    pack4, unpack4 = pick(prog, EX + "Pack", 2), pick(prog, EX + "Unpack", 2)
    W = lambda f: (f.file, f.line, f.qual)

    # halo width of every dynamics core
    halos = {}
    for k, fs in prog.byqual.items():
        if k.endswith("::GetHaloElements") and not k.startswith(("PatchBox", "Model")):
            for f in fs:
                r = call(f, [], this=("G", "dyn"))
                h = r.ret.const() if r is not None and isinstance(r.ret, Poly) else None
                halos[k] = h
    c.extra["halo_widths"] = {k: str(v) for k, v in halos.items()}
    if not halos or any(h is None for h in halos.values()):
        raise AnalysisBroken("halo width not constant: %s" % halos)
    widths = sorted(set(int(h) for h in halos.values()))

    def grid_of(d, side_len, H):
        """local frame: extents and segment for a side or a corner."""
        sA, sB, sR = 2 * H + 7, 2 * H + 8, 3
        if d in SIDES:
            first = H + 2
            return [(sA, sB, sR, H, first, first + side_len)]
        i = {1: sA - H - 1, -1: H}[CORNERS[d][0]]
        j = {1: sB - H - 1, -1: H}[CORNERS[d][1]]
        return [(sA, sB, sR, H, i, j)]

    def coords(d, sA, sB, H, first, second, cell, halo):
        """cell of a field -> (perpendicular depth, along offset) for a side, depths from the corner for a corner; None if elsewhere."""
        i, j, k = cell
        if d in SIDES:
            a, b = SIDES[d]
            x, n, al = (i, sA, j) if a else (j, sB, i)
            sg = a or b
            depth = (x - (n - H) if sg > 0 else H - 1 - x) if halo else (n - H - 1 - x if sg > 0 else x - H)
            off = al - first
            return (depth, off, k) if 0 <= depth < H and 0 <= off < second - first else None
        a, b = CORNERS[d]
        da = (i - first - 1 if a > 0 else first - 1 - i) if halo else (first - i if a > 0 else i - first)
        db = (j - second - 1 if b > 0 else second - 1 - j) if halo else (second - j if b > 0 else j - second)
        return (da, db, k) if 0 <= da < H and 0 <= db < H else None

    maps = {}

    def table(f, d, rev, buf, cursor, H, L, halo):
        key = (f.qual, d, rev, H, L)
        if key in maps:
            return maps[key]
        T_ = models[f.qual, d, rev]
        if T_ is None:
            maps[key] = "always refused"
            return maps[key]
        (sA, sB, sR, H_, first, second), = grid_of(d, L, H)
        start = 5
        e = env_for(T_, cursor, sA, sB, sR, H, first, second, start, 10 ** 6)
        try:
            out, bad = {}, None
            for n, cell, into in T_["cells"](e):
                if into == halo:
                    raise Unresolved("copies in the wrong direction")
                x = coords(d, sA, sB, H, first, second, cell, halo)
                if x is None:
                    bad = "%s cell %s of the field lies outside the %s" % ("writes" if halo else "reads", cell, "halo" if halo else "interior cells along the edge")
                    break
                if n - start in out:
                    bad = "buffer position %d used twice" % (n - start)
                    break
                out[n - start] = x
            want = H * (L if d in SIDES else H) * sR
            if bad is None and sorted(out) != list(range(want)):
                bad = "buffer positions %d..%d expected, %d used" % (0, want - 1, len(out))
            if bad is None and len(set(out.values())) != want:
                bad = "some cells are transferred more than once, others never"
            if bad is None and nval(T_["cursor"], e) != start + want:
                bad = "cursor advances by %g instead of %d" % (nval(T_["cursor"], e) - start, want)
            maps[key] = bad or out
        except Undefined as x:
            maps[key] = Unresolved(str(x))
        except Unresolved as x:
            maps[key] = x
        return maps[key]

    models = {}
    for f, buf, cur in ((pack, "m_dSendBuffer", "m_ixSendBuffer"), (unpack, "m_dRecvBuffer", "m_ixRecvBuffer")):
        for d in ALL:
            for rev in (F, T):
                models[f.qual, d, rev] = transfer(c, prog, f, D[d], rev, buf, cur)
                m = models[f.qual, d, rev]
                if m is not None:
                    c.ob("frame", W(f), not m["other"], "%s %s: nothing but the %s and the cursor changes" % (f.name, d, "buffer" if f is pack else "field"), "frame|%s|%s|%s" % (f.name, d, rev))
        for bad in (D["Middle"], D["Unreachable"], 8):
            c.ob("refuse", W(f), transfer(c, prog, f, bad, F, buf, cur) is None, "%s refuses direction %d" % (f.name, bad), "refuse|%s|%d" % (f.name, bad))

    # region and order on each side
    HL = [(1, 1), (1, 4), (2, 3), (3, 5)]
    for f, buf, cur, halo in ((pack, "m_dSendBuffer", "m_ixSendBuffer", False), (unpack, "m_dRecvBuffer", "m_ixRecvBuffer", True)):
        for d in ALL:
            for rev in (F, T):
                for H, L in HL:
                    if d in CORNERS and H not in widths:
                        continue
                    t = table(f, d, rev, buf, cur, H, L, halo)
                    ok = None if isinstance(t, Unresolved) else not isinstance(t, str)
                    c.ob("region", W(f), ok, "%s %s, halo %d, %s: exactly the cells along the edge, each once, in consecutive positions%s" % (f.name, d, H, "reversed" if rev == T else "not reversed", "" if ok else ": %s" % t),
                         "region|%s|%s|%s|%d|%d" % (f.name, d, rev, H, L))
                # capacity: refused exactly when the message does not fit
                m = models[f.qual, d, rev]
                if m is None:
                    continue
                bad = None
                try:
                    for H, L in HL[:3]:
                        if d in CORNERS and H not in widths:
                            continue
                        (sA, sB, sR, H_, first, second), = grid_of(d, L, H)
                        need = H * (L if d in SIDES else H) * sR
                        for start in (0, 7):
                            for rows, ok in ((start + need, True), (start + need - 1, False), (start + need + 3, True), (0, False)):
                                e = env_for(m, cur, sA, sB, sR, H, first, second, start, rows)
                                if any(ncond(t, e) for t in m["throws"]) == ok:
                                    bad = "buffer of %d values, cursor %d, %d values to move: %s" % (rows, start, need, "refused" if ok else "accepted")
                    c.ob("capacity", W(f), bad is None, "%s %s: refused exactly when the buffer is too short%s" % (f.name, d, "" if bad is None else ": " + bad), "capacity|%s|%s|%s" % (f.name, d, rev))
                except Undefined as x:
                    c.ob("capacity", W(f), None, "%s %s: %s" % (f.name, d, x))

    # sender and receiver agree for every pair of panels that can be neighbours
    def agree(d, t, rev, geo, what, key):
        """geo: receiver coordinates of the cell at sender coordinates."""
        r = T if rev else F
        for H, L in HL:
            if d in CORNERS and H not in widths:
                continue
            a = table(pack, d, r, "m_dSendBuffer", "m_ixSendBuffer", H, L, False)
            # what the receiver does must not depend on its own reversal flag
            for r2 in (F, T):
                b = table(unpack, t, r2, "m_dRecvBuffer", "m_ixRecvBuffer", H, L, True)
                if isinstance(a, Unresolved) or isinstance(b, Unresolved):
                    c.ob("match", W(pack), None, what)
                    continue
                if isinstance(a, str) or isinstance(b, str):
                    c.ob("match", W(pack), False, "%s: %s" % (what, a if isinstance(a, str) else b), "match|" + key)
                    continue
                bad = None
                for n in a:
                    x = geo(a[n], L)
                    if b.get(n) != x:
                        bad = "value %d is taken from depth %d offset %d level %d, belongs at depth %d offset %d level %d but is stored at %s" % ((n,) + a[n] + x + (b.get(n),))
                        break
                c.ob("match", W(pack), bad is None, "%s, halo %d, %d cells%s" % (what, H, L, "" if bad is None else ": " + bad), "match|%s|%d|%d" % (key, H, L))

    opp = {d: [n for n, v in ALL.items() if v == (-ALL[d][0], -ALL[d][1])][0] for d in ALL}
    for d in SIDES:
        agree(d, opp[d], False, lambda x, L: x, "within a panel, %s" % d, "same|%s" % d)
    for d in CORNERS:
        agree(d, opp[d], False, lambda x, L: x, "within a panel, %s" % d, "same|%s" % d)
    for (p, d), (q, t, rev) in sorted(G.cross.items()):
        agree(d, t, rev, (lambda x, L: (x[0], L - 1 - x[1], x[2])) if rev else (lambda x, L: x), "panel %d %s to panel %d %s" % (p, d, q, t), "%d|%s" % (p, d))
        # corners of patches along that edge
        M = G.linear(p, d)
        ab, par, perp = G.flags(p, d)
        for cn, v in CORNERS.items():
            if (SIDES[d][0] and SIDES[d][0] != v[0]) or (SIDES[d][1] and SIDES[d][1] != v[1]):
                continue
            w = M(v)
            tc = [n for n, x in CORNERS.items() if x == (-w[0], -w[1])][0]
            agree(cn, tc, par, (lambda x, L: (x[1], x[0], x[2])) if ab else (lambda x, L: x), "panel %d %s across its %s edge to panel %d %s" % (p, cn, d, q, tc), "%d|%s|%s" % (p, d, cn))

    # whole four-dimensional fields: the same components in the same order on both sides
    def components(f, inner):
        def hook(I, st, fr, n, key, qual, place, args):
            if qual == inner and len(args) == 1:
                o = I.obj_place(args[0], st, fr)
                ptr = st.store.get(("F", o, "DataArray3D<double>::m_data1D"))
                ext = tuple(st.store.get(("EXT", o, k)) for k in range(3))
                st.event("xfer", ptr, ext)
                return ("opq", ("void",))
            return NotImplemented
        I = new_interp(prog, call_hook=hook)
        s, r = run_function(I, f, THIS, {}, State())
        c.functions |= set(I.fnlog)
        data = ("P", f.params[1][1])
        out = []
        if s is None:
            return None
        for e, cond, loops in flatten(trace_list(s.trace)):
            if e[0] != "xfer":
                continue
            out.append((e[1], e[2], cond, loops))
        return data, ("P", f.params[0][1]), out

    S = enum_value(prog, "DataType_State")
    NODE, REDGE = enum_value(prog, "DataLocation_Node"), enum_value(prog, "DataLocation_REdge")
    orders = {}
    for f, inner in ((pack4, EX + "Pack"), (unpack4, EX + "Unpack")):
        r = components(f, inner)
        for dt in (S, enum_value(prog, "DataType_Tracers")):
            for locs in itertools.product((NODE, REDGE), repeat=3):
                for dl in (NODE, REDGE):
                    try:
                        if r is None:
                            raise Unresolved("always throws")
                        data, grid, xs = r
                        seq = []
                        env = {("extent", data, ZERO): 3}
                        for k in range(3):
                            env[("extent", data, num(k + 1))] = (7, 8, 4)[k]

                        def gen(t):
                            if t[0] == "in" and t[1][0] == "F" and t[1][2].endswith("m_eDataType"):
                                return dt
                            if t[0] == "in" and t[1][0] == "F" and t[1][2].endswith("m_eDataLocation"):
                                return dl
                            if t[0] == "in" and t[1][0] == "E" and t[1][1][0] == "F" and t[1][1][2].endswith("m_vecVarLocation"):
                                return locs[int(nval(t[1][2][0], env))]
                            return None
                        env["*"] = gen
                        for ptr, ext, cond, loops in xs:
                            def rec(k):
                                if k == len(loops):
                                    if not ncond(strip_attached(cond), env):
                                        return
                                    if not (isinstance(ptr, tuple) and ptr[0] == "ptr" and ptr[1][0] == "E" and ptr[1][1] == data):
                                        raise Unresolved("component storage not resolved")
                                    ix = [nval(x, env) for x in ptr[1][2]]
                                    seq.append((tuple(ix), tuple(nval(x, env) if x is not None else None for x in ext)))
                                    return
                                lid, cnt = loops[k]
                                lv = lid.lv if hasattr(lid, "lv") else (lid if isinstance(lid, tuple) else ("lv", lid))
                                for t in range(int(nval(cnt, env))):
                                    env[lv] = t
                                    rec(k + 1)
                                env.pop(lv, None)
                            rec(0)
                        want = [((k, 0, 0, 0), (7, 8, 4)) for k in range(3) if dt != S or locs[k] == dl]
                        ok = seq == want
                        why = "" if ok else ": transfers %s" % ([x[0][0] for x in seq],)
                    except (Unresolved, Undefined) as x:
                        ok, why = None, ": %s" % x
                    c.ob("components", W(f), ok, "%s of a field at location %d with component locations %s: every component stored there, once, in order%s" % (f.name, dl, locs, why),
                         "components|%s|%s|%s|%s" % (f.name, dt == S, locs, dl))

    # headers identify the message at the other end
    HD = EX + "MessageHeader::"
    def header(name):
        f = prog.fn(EX + name)
        I = new_interp(prog)
        s, r = run_function(I, f, THIS, {f.params[0][1]: ("ptr", ("G", "hd"))}, State())
        c.functions |= set(I.fnlog)
        return f, {q: (s.store.get(("F", ("G", "hd"), q))) for q, t, ln, ini in prog.classes[EX + "MessageHeader"]["fields"]}
    fs_, hs = header("GetSendMessageHeader")
    fr_, hr = header("GetRecvMessageHeader")
    sw = {ina("m_ixSourcePatch"): atom(("other", "source")), ina("m_ixTargetPatch"): atom(("other", "target")), ina("m_dir"): atom(("other", "dir")), ina("m_dirOpposing"): atom(("other", "opp"))}
    # the buffer at the other end: source and target exchanged, its direction is the opposing direction of this one
    link = {("other", "source"): atom(ina("m_ixTargetPatch")), ("other", "target"): atom(ina("m_ixSourcePatch")), ("other", "dir"): atom(ina("m_dirOpposing")), ("other", "opp"): atom(ina("m_dir"))}
    for q in hs:
        a, b = hs[q], hr[q]
        ok = None if not (isinstance(a, Poly) and isinstance(b, Poly)) else equal(subst(subst(b, sw), link), a)
        c.ob("header", W(fr_), ok, "field %s of the header expected at the other end is the one sent" % q.split("::")[-1], "header|" + q)
    for k, nm in ((("m_ixSourcePatch"), "sending patch"), ("m_ixTargetPatch", "receiving patch"), ("m_dirOpposing", "receiving direction")):
        ok = any(isinstance(v, Poly) and equal(v, atom(ina(k))) for v in hs.values())
        c.ob("header", W(fs_), ok, "the header tells the %s" % nm, "header|tells|" + k)
    feq = prog.fn(HD + "operator==")
    fne = prog.fn(HD + "operator!=")
    for f, pos in ((feq, True), (fne, False)):
        I = new_interp(prog)
        r_ = run_function(I, f, ("G", "ha"), {}, State())[1]
        c.functions |= set(I.fnlog)
        bad = None
        try:
            names = [q for q, t, ln, ini in prog.classes[EX + "MessageHeader"]["fields"]]
            base = {}
            for n_, q in enumerate(names):
                base[("in", ("F", ("G", "ha"), q))] = n_
                base[("in", ("F", ("P", f.params[0][1]), q))] = n_
            if bool(value(r_, base)) != pos:
                bad = "equal headers"
            for q in names:
                e = dict(base)
                e[("in", ("F", ("G", "ha"), q))] = 77
                if bool(value(r_, e)) == pos:
                    bad = "headers that differ in " + q
            c.ob("header", W(f), bad is None, "%s compares every field%s" % (f.name, "" if bad is None else ": wrong for " + bad), "header|" + f.name)
        except Undefined as x:
            c.ob("header", W(f), None, "%s: %s" % (f.name, x))

    # message length
    r0 = call(EX + "CalculateByteSize", [], this=THIS)
    r1 = call(EX + "GetMessageSize", [], this=THIS, st=r0.state if r0 else None)
    hdr = 4 * len(prog.classes[EX + "MessageHeader"]["fields"])
    for bs, mr, h, nc in ((1, 1, 1, 1), (4, 31, 1, 5), (6, 11, 2, 7), (1, 2, 3, 5)):
        e = {ina("m_sBoundarySize"): bs, ina("m_sMaxRElements"): mr, ina("m_sHaloElements"): h, ina("m_sComponents"): nc}
        try:
            v = value(r1.ret, e)
            need = bs * mr * h * nc * 8 + hdr
            c.ob("size", (prog.fn(EX + "GetMessageSize").file, prog.fn(EX + "GetMessageSize").line, EX + "GetMessageSize"), v >= need and v % 8 == 0,
                 "a message of %d cells, %d levels, %d components holds them and its header (%d bytes, %d needed)" % (bs * h, mr, nc, v, need), "size|%d|%d|%d|%d" % (bs, mr, h, nc))
        except (Undefined, AttributeError) as x:
            c.ob("size", "ExchangeBuffer::GetMessageSize", None, str(x))
    rr = call(EX + "Reset", [], this=THIS)
    fR = prog.fn(EX + "Reset")
    for q in ("m_ixRecvBuffer", "m_ixSendBuffer"):
        v = rr.interp.load(rr.state, fld(q), "i") if rr else None
        c.ob("size", W(fR), isinstance(v, Poly) and v.const() == Fraction(hdr, 8), "after Reset, %s points behind the header" % q, "size|reset|" + q)
    wrote = rr is not None and any(k[0] == "F" and k[1] == ("E", fld("m_dSendBuffer"), (ZERO,)) for k in rr.state.store)
    c.ob("size", W(fR), wrote, "Reset writes the header at the start of the send buffer", "size|reset|header")

    # which field is packed for which data type
    fp, fu = prog.fn("GridPatch::PackExchangeBuffer"), prog.fn("GridPatch::UnpackExchangeBuffer")
    P = ("G", "patch")
    types = sorted((v, k.split("::")[-1]) for k, v in prog.enums.items() if k.split("::")[-1].startswith("DataType_"))
    acc = {}
    for nm, dt in (("GetDataVorticity", "DataType_Vorticity"), ("GetDataDivergence", "DataType_Divergence"), ("GetDataTemperature", "DataType_Temperature"),
                   ("GetDataRichardson", "DataType_Richardson"), ("GetTopographyDeriv", "DataType_TopographyDeriv")):
        for g in prog.byqual.get("GridPatch::" + nm, []):
            if not g.const:
                I = new_interp(prog)
                s, r = run_function(I, g, P, {}, State())
                if isinstance(r, tuple) and r[0] == "obj":
                    acc[dt] = [r[1]]
    for inst in range(3):
        for nm, loc, dt in (("GetDataState", NODE, "DataType_State"), ("GetDataState", REDGE, "DataType_State"), ("GetDataTracers", None, "DataType_Tracers")):
            for g in prog.byqual.get("GridPatch::" + nm, []):
                if not g.const:
                    I = new_interp(prog)
                    a = {g.params[0][1]: num(inst)}
                    if loc is not None:
                        a[g.params[1][1]] = num(loc)
                    s, r = run_function(I, g, P, a, State())
                    if isinstance(r, tuple) and r[0] == "obj":
                        acc.setdefault((dt, inst), []).append(r[1])

    def fields(f, inner, dt, inst, patch=3, src=3, n=3):
        rec = []
        def hook(I, st, fr, nn, key, qual, place, args):
            if qual == inner:
                st.event("xfer", I.obj_place(args[-1], st, fr))
                return ("opq", ("void",))
            return NotImplemented
        I = new_interp(prog, call_hook=hook)
        I.field_init = lambda pl, tc: num(n) if pl[0] == "F" and pl[2] == "$size" else None
        st = State()
        st.store[("F", P, "GridPatch::m_ixPatch")] = num(patch)
        st.store[("F", ("G", "exb"), EX + "m_ixSourcePatch")] = num(src)
        args = {}
        for pid, nm, t in f.params:
            if "ExchangeBuffer" in t:
                args[nm] = ("PLACE", ("G", "exb"))
            elif "DataType" in t:
                args[nm] = num(dt)
            else:
                args[nm] = num(inst)
        s, r = run_function(I, f, P, args, st)
        c.functions |= set(I.fnlog)
        if s is None:
            return None
        return [e[1] for e, cond, loops in flatten(trace_list(s.trace)) if e[0] == "xfer" and cond == T and not loops]

    for v, nm in types:
        for inst in (0, 1, 2):
            a, b = fields(fp, EX + "Pack", v, inst), fields(fu, EX + "Unpack", v, inst)
            c.ob("datatype", W(fu), a == b, "%s instance %d: unpacks the fields packed, in the same order" % (nm, inst), "datatype|sym|%s|%d" % (nm, inst))
            want = acc.get((nm, inst)) or acc.get(nm)
            if want is not None:
                c.ob("datatype", W(fp), a is not None and sorted(map(repr, a)) == sorted(map(repr, want)), "%s instance %d: packs the field itself" % (nm, inst), "datatype|%s|%d" % (nm, inst))
        if nm in ("DataType_State", "DataType_Tracers"):
            for f, inner in ((fp, EX + "Pack"), (fu, EX + "Unpack")):
                for inst in (-1, 3, 4):
                    c.ob("refuse", W(f), fields(f, inner, v, inst) is None, "%s of %s refuses instance %d of 3" % (f.name, nm, inst), "refuse|%s|%s|%d" % (f.name, nm, inst))
        for f, inner in ((fp, EX + "Pack"), (fu, EX + "Unpack")):
            c.ob("refuse", W(f), fields(f, inner, v, 0, src=4) is None, "%s refuses a buffer of another patch (%s)" % (f.name, nm), "refuse|%s|patch|%s" % (f.name, nm))

    # registration: segment, sizes and opposing direction of a buffer
    freg5, freg3 = pick(prog, "Grid::RegisterExchangeBuffer", 5), pick(prog, "Grid::RegisterExchangeBuffer", 3)
    box = {n: atom(("box", n)) for n in ("A0", "A1", "B0", "B1", "H")}
    A0, A1, B0, B1 = box["A0"], box["A1"], box["B0"], box["B1"]
    def boxhook(rec=None):
        def hook(I, st, fr, n, key, qual, place, args):
            q = qual or ""
            if q.startswith("PatchBox::Get"):
                m = q.split("::")[1]
                return {"GetAInteriorBegin": A0, "GetAInteriorEnd": A1, "GetBInteriorBegin": B0, "GetBInteriorEnd": B1}.get(m, NotImplemented)
            if q == "Grid::RegisterExchangeBuffer" and len(args) == 5 and rec is not None:
                rec.append((st.path, [I.ev(a, st, fr) for a in args]))
                return ("opq", ("void",))
            return NotImplemented
        return hook
    for d in ALL:
        rec = []
        I = new_interp(prog, call_hook=boxhook(rec))
        run_function(I, freg3, ("G", "grid"), {freg3.params[0][1]: atom(("s",)), freg3.params[1][1]: atom(("t",)), freg3.params[2][1]: num(D[d])}, State())
        c.functions |= set(I.fnlog)
        if d in SIDES:
            want = (B0, B1) if SIDES[d][0] else (A0, A1)
        else:
            a, b = CORNERS[d]
            want = (sub(A1, ONE) if a > 0 else A0, sub(B1, ONE) if b > 0 else B0)
        ok = len(rec) == 1 and all(isinstance(x, Poly) for x in rec[0][1]) and equal(rec[0][1][2], num(D[d])) and equal(rec[0][1][3], want[0]) and equal(rec[0][1][4], want[1]) \
            and equal(rec[0][1][0], atom(("s",))) and equal(rec[0][1][1], atom(("t",)))
        c.ob("register", W(freg3), ok, "%s: the whole %s of the patch" % (d, "side" if d in SIDES else "corner"), "register|" + d)
    REC = {}
    def reghook(d):
        def hook(I, st, fr, n, key, qual, place, args):
            q = qual or ""
            if q == "ExchangeBufferRegistry::Register":
                o = I.obj_place(args[0], st, fr)
                REC[d] = {f_: I.load(st, ("F", o, EX + f_), "i") for f_ in ("m_ixSourcePatch", "m_ixTargetPatch", "m_dir", "m_ixFirst", "m_ixSecond", "m_sHaloElements", "m_sComponents", "m_sMaxRElements", "m_sBoundarySize", "m_ixSourceProcessor", "m_ixTargetProcessor", "m_ixLocalActiveSourcePatch", "m_sByteSize")}
                REC[d].update({f_: I.load(st, ("F", o, EX + f_), "b") for f_ in ("m_fReverseDirection", "m_fFlippedCoordinate")})
                REC[d]["m_dirOpposing"] = I.load(st, ("F", o, EX + "m_dirOpposing"), "i")
                return ("opq", ("void",))
            if q.endswith("::GetOpposingDirection"):
                for a, v in zip(args[3:], (atom(("opp",)), ("b", ("par",)), ("b", ("perp",)))):
                    I.store_to(st, I.lv(a, st, fr), v, n)
                REC[d, "panels"] = [I.ev(a, st, fr) for a in args[:3]]
                return ("opq", ("void",))
            if q == "PatchBox::GetPanel":
                return atom(("panel", repr(place)))
            if q.startswith("PatchBox::Get"):
                return boxhook()(I, st, fr, n, key, qual, place, args)
            if q == "Grid::GetPatchBox":
                v = I.ev(args[0], st, fr)
                return ("obj", ("E", ("F", ("G", "grid"), "boxes"), (v,)))
            if q in ("EquationSet::GetComponents", "EquationSet::GetTracers", "Grid::GetRElements", "Model::GetHaloElements"):
                return atom(("call", q.split("::")[1]))
            return NotImplemented
        return hook
    for d in ALL:
        I = new_interp(prog, call_hook=reghook(d))
        I.field_init = lambda pl, tc: num(3) if pl[0] == "F" and pl[2] == "$size" and "m_vecActiveGridPatches" in repr(pl[1]) else None
        p = [x[1] for x in freg5.params]
        sA_, tA_ = atom(("s",)), atom(("t",))
        s, r = run_function(I, freg5, ("G", "grid"), {p[0]: sA_, p[1]: tA_, p[2]: num(D[d]), p[3]: atom(("f1",)), p[4]: atom(("f2",))}, State())
        c.functions |= set(I.fnlog)
        R = REC.get(d)
        if R is None:
            c.ob("register", W(freg5), None, "%s: registered buffer not resolved" % d)
            continue
        env = {("s",): 4, ("t",): 9, ("f1",): 2, ("f2",): 8, ("opp",): 77}
        bnd = lambda e: e[("f2",)] - e[("f1",)] if d in SIDES else e[("call", "GetHaloElements")]
        for comps, tr, nr, h in ((5, 0, 30, 1), (5, 9, 10, 1), (3, 3, 7, 2)):
            e = dict(env)
            e.update({("call", "GetComponents"): comps, ("call", "GetTracers"): tr, ("call", "GetRElements"): nr, ("call", "GetHaloElements"): h})
            want = {"m_ixSourcePatch": 4, "m_ixTargetPatch": 9, "m_dir": D[d], "m_ixFirst": 2, "m_ixSecond": 8, "m_sHaloElements": h, "m_sBoundarySize": bnd(e), "m_dirOpposing": 77}
            for q, w in want.items():
                try:
                    ok = nval(R[q], e) == w
                except (Undefined, AttributeError) as x:
                    ok = None
                c.ob("register", W(freg5), ok, "%s: %s of the registered buffer" % (d, q), "register|%s|%s" % (d, q))
            try:
                n_ = nval(R["m_sByteSize"], e)
                ok = n_ >= bnd(e) * h * max(comps, tr) * (nr + 1) * 8
            except (Undefined, AttributeError):
                ok = None
            c.ob("register", W(freg5), ok, "%s: room for all components or tracers on all levels and interfaces (%d, %d, %d levels)" % (d, comps, tr, nr), "register|%s|room|%d|%d" % (d, comps, tr))
        ok = R["m_fReverseDirection"] == ("b", ("par",)) and R["m_fFlippedCoordinate"] == ("b", ("perp",))
        c.ob("register", W(freg5), ok, "%s: reversal flags are those of the crossing" % d, "register|%s|flags" % d)
        v = R["m_ixLocalActiveSourcePatch"]
        for at in (0, 1, 2, None):
            e = {("s",): 4, ("t",): 9, ("f1",): 5, ("f2",): 6, ("opp",): 77}

            def ids(t):
                if t[0] == "in" and t[1][0] == "F" and t[1][2] == "GridPatch::m_ixPatch":
                    k = [x for x in range(3) if "(%s,)" % repr(num(x)) in repr(t[1][1])]
                    if len(k) == 1:
                        return 4 if k[0] == at else 20 + k[0]
                if t[0] == "in" and t[1][0] == "F" and t[1][2] == "$size":
                    return 100
                if t[0] == "box":
                    return {"A0": 1, "A1": 11, "B0": 1, "B1": 12, "H": 1}[t[1]]
                if t[0] == "call":
                    return {"GetHaloElements": 1}.get(t[1], 5)
                return None
            e["*"] = ids
            try:
                ref = any(ncond(t[0], e) for t in I.throws)
                ok = ref if at is None else nval(v, e) == at and not ref
            except Undefined as x:
                ok = None
            c.ob("register", W(freg5), ok, "%s: %s" % (d, "refused for a patch that is not active" if at is None else "the local index of the sending patch is its position among the active patches (%d)" % at), "register|%s|local|%s" % (d, at))
        pn = REC.get((d, "panels"))
        ok = None
        if pn is not None and all(isinstance(x, Poly) for x in pn):
            ok = equal(pn[2], num(D[d])) and show(pn[0]) != show(pn[1]) and "(4)" not in show(pn[0]) and repr(sA_) in "" or (equal(pn[2], num(D[d])) and panel_of(pn[0], sA_) and panel_of(pn[1], tA_))
        c.ob("register", W(freg5), ok, "%s: crossing taken from the source's panel to the target's panel" % d, "register|%s|panels" % d)
        for q, w in (("m_ixSourceProcessor", sA_), ("m_ixTargetProcessor", tA_)):
            v = R[q]
            t = atom_of(v)
            ok = t is not None and t[0] == "in" and t[1][0] == "E" and "m_vecPatchProcessor" in repr(t[1][1]) and len(t[1][2]) == 1 and equal(t[1][2][0], w)
            c.ob("register", W(freg5), ok, "%s: %s is the processor of that patch" % (d, q), "register|%s|%s" % (d, q))
    for r_, n_ in (("region", 60), ("match", 150), ("capacity", 20), ("components", 40), ("header", 8), ("size", 6), ("datatype", 30), ("refuse", 20), ("register", 100)):
        c.need(r_, n_)
    return c.finish("proof", "Pack and Unpack are interpreted for every direction and reversal flag; loop nests are summarised to closed index formulas, which give the buffer position of every cell; positions are matched through the crossing geometry of every pair of neighbouring panels.",
                    {"region": "exactly the cells along the edge are transferred", "match": "the cell packed is the one geometrically facing the cell it is unpacked to", "capacity": "refused exactly when the buffer is too short", "components": "components of a field in the same order on both sides",
                     "header": "message headers identify the message", "size": "message length and cursor start", "datatype": "same fields packed and unpacked per data type", "refuse": "invalid directions, instances, buffers refused", "register": "registered buffers describe the edge", "frame": "nothing else is written"})


def atom_of(v):
    if isinstance(v, Poly) and len(v.t) == 1:
        (m, k), = v.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return sym.atom_term(m[0][0])
    return None


def panel_of(v, ix):
    t = atom_of(v)
    return t is not None and t[0] == "panel" and repr(("boxes",))[1:-2] in t[1] and repr((ix,)) in t[1]


def strip_attached(c):
    """drop conditions about storage already being attached (decided by the array class, not by this property)."""
    k = c[0]
    if k == "b" and isinstance(c[1], tuple) and c[1] and c[1][0] == "attached":
        return F
    if k == "not":
        if c[1][0] == "b" and isinstance(c[1][1], tuple) and c[1][1] and c[1][1][0] == "attached":
            return T
        return c
    if k == "and":
        return cand(strip_attached(c[1]), strip_attached(c[2]))
    return c
