"""C08: every message of an exchange is posted, sent, received and unpacked exactly once, in its own memory."""
from common import *
from absint import *
from funcs import value
from ident import nval, ncond, Undefined
from c03 import enum_value
import itertools, stdmodel

EX = "ExchangeBuffer::"
R = "ExchangeBufferRegistry::"
THIS = ("G", "registry")


def F_(n):
    return ("F", THIS, R + n)


def E_(n, i):
    return ("E", F_(n), (num(i),))


REG, PROCS, BYP = F_("m_vecRegistry"), F_("m_vecProcessors"), F_("m_vecRegistryByProcessor")


def strip(p):
    """place without the element marker of pointers into arrays."""
    if isinstance(p, tuple) and p and p[0] == "ptr":
        return strip(p[1])
    return p


def sizes(tab):
    def fi(pl, tc):
        if pl[0] == "F" and pl[2] == "$size":
            v = tab(pl[1])
            return num(v) if v is not None else None
        return None
    return fi


def atoms_true(I):
    """conditions about storage being attached already are assumed false (fresh objects)."""
    def star(t):
        if isinstance(t, tuple) and t and t[0] == "attached":
            return 0
        return None
    return star


def run(c):
    prog = Program(sources())
    fns = {n: prog.fn(R + n) for n in ("PrepareExchange", "Send", "WaitSend", "WaitReceive", "AttachRecvBuffers", "Allocate", "Register")}
    fx = prog.fn("Grid::Exchange")
    W = lambda f: (f.file, f.line, f.qual)

    def interp(P, hook=None, peel=2, tab=None):
        I = new_interp(prog)
        I.peel = peel
        I.log_stores = True
        I.unroll = 12

        def t(a):
            if tab is not None:
                v = tab(a)
                if v is not None:
                    return v
            if a == REG:
                return 4
            if a[0] == "F" and a[1] == THIS:
                return P
            return None
        I.field_init = sizes(t)
        stdmodel.enable(I, hook)
        return I

    def go(I, f, args=None, st=None):
        s, r = run_function(I, f, THIS, args, st if st is not None else State())
        c.functions |= set(I.fnlog)
        return s, r

    def events(s):
        return list(flatten(trace_list(s.trace))) if s is not None else []

    def calls(s, names):
        return [(e, cd, lp) for e, cd, lp in events(s) if e[0] == "call" and e[1] in names]

    world = repr(("ptr", ("G", "ompi_mpi_comm_world")))

    # ---- posting of receives and sends
    post = {}
    for nm, mpi, bufs, reqs in (("PrepareExchange", "MPI_Irecv", "m_vecRecvBuffers", "m_vecRecvRequest"), ("Send", "MPI_Isend", "m_vecSendBuffers", "m_vecSendRequest")):
        for P in (1, 2, 3):
            f = fns[nm]
            st = State()
            if nm == "Send":
                st.store[F_("m_fActiveAsyncSend")] = F
            I = interp(P, hook=lambda I, st, fr, n, key, qual, place, args: (st.event("reset", place), ("opq", ("void",)))[1] if qual == EX + "Reset" else NotImplemented)
            s, r = go(I, f, None, st)
            ev = calls(s, (mpi,))
            other = [e for e, cd, lp in events(s) if e[0] == "call" and e[1].startswith("MPI_") and e[1] not in (mpi, "MPI_Comm_rank")]
            c.ob("post", W(f), len(ev) == P and not other and all(cd == T and not lp for e, cd, lp in ev), "%s with %d processors: one %s each" % (nm, P, mpi), "post|%s|count" % nm)
            got = []
            for e, cd, lp in ev:
                a = e[3]
                got.append(a)
                ix = None
                for i in range(P):
                    if len(a) == 7 and strip(a[6]) == E_(reqs, i):
                        ix = i
                ok = ix is not None and strip(a[0]) == ("D", E_(bufs, ix)) and a[1] == atom(("in", E_("m_vecBufferSize", ix))) and a[3] == atom(("in", E_("m_vecProcessors", ix))) and repr(a[5]) == world
                c.ob("post", W(f), ok, "%s: buffer, size, processor and request of a message belong together" % nm, "post|%s|args" % nm)
                post.setdefault(nm, set()).add((repr(a[2]), repr(a[4]), ix))
            c.ob("post", W(f), len(set(x[2] for x in post.get(nm, ()) if x[2] is not None)) >= P, "%s: every processor's message posted" % nm, "post|%s|each" % nm)
            if nm == "Send":
                c.ob("post", W(f), s is not None and I.load(s, F_("m_fActiveAsyncSend"), "b") == T, "after Send the sends are recorded as pending", "post|Send|flag")
                st = State()
                st.store[F_("m_fActiveAsyncSend")] = T
                I = interp(P)
                s, r = go(I, f, None, st)
                c.ob("post", W(f), s is None or not calls(s, (mpi,)), "Send refuses while a previous send is pending", "post|Send|refuse")
            else:
                res = [e[1] for e, cd, lp in events(s) if e[0] == "reset" and cd == T and not lp]
                c.ob("post", W(f), sorted(map(repr, res)) == sorted(repr(E_("m_vecRegistry", i)) for i in range(4)), "every buffer is reset", "post|reset")
                c.ob("post", W(f), all(I.load(s, E_("m_vecMessageReceived", i), "b") == F for i in range(P)), "no message counts as received yet", "post|received")
    ty = set(x[:2] for v in post.values() for x in v)
    c.ob("post", W(fns["Send"]), len(ty) == 1, "sends and receives use the same type and tag", "post|type")

    # ---- waiting for sends
    for active in (True, False):
        f = fns["WaitSend"]
        st = State()
        st.store[F_("m_fActiveAsyncSend")] = T if active else F
        I = interp(3)
        s, r = go(I, f, None, st)
        ev = calls(s, ("MPI_Waitall", "MPI_Wait"))
        if active:
            done = set()
            for e, cd, lp in ev:
                a = e[3]
                if e[1] == "MPI_Waitall" and cd == T and strip(a[1]) == E_("m_vecSendRequest", 0):
                    k = a[0].const() if isinstance(a[0], Poly) else None
                    done |= set(range(int(k))) if k is not None else set()
                elif e[1] == "MPI_Wait" and cd == T:
                    done |= {i for i in range(3) if strip(a[0]) == E_("m_vecSendRequest", i)}
            c.ob("waitsend", W(f), done == {0, 1, 2}, "waits for every pending send", "waitsend|all")
        c.ob("waitsend", W(f), s is not None and I.load(s, F_("m_fActiveAsyncSend"), "b") == F, "afterwards no send counts as pending (%s)" % active, "waitsend|flag|%s" % active)
        if not active:
            c.ob("waitsend", W(f), s is not None, "returns when nothing is pending", "waitsend|idle")

    # ---- waiting for receives
    f = fns["WaitReceive"]
    for P in (1, 2, 3) if c.tier == "thorough" else (1, 2):
        def hook(I, st, fr, n, key, qual, place, args):
            if qual == R + "AttachRecvBuffers":
                v = I.as_num(I.ev(args[0], st, fr))
                st.event("attach", v)
                k = ("G", "attached")
                I.store_to(st, ("E", k, (v,)), add(I.load(st, ("E", k, (v,)), "i"), ONE), n)
                return ("opq", ("void",))
            return NotImplemented
        I = interp(P, hook, peel=2 if P < 3 else 1)
        st = State()
        I.set_chain(st, ("G", "attached"), Chain("fill", None, ZERO))
        s, r = go(I, f, None, st)
        seen = {}

        def gather(evs):
            for e, cd, lp in flatten(evs):
                if e[0] == "call" and e[1] == "MPI_Test":
                    ix = [i for i in range(P) if strip(e[3][0]) == E_("m_vecRecvRequest", i)]
                    o = seen.get(e[5])
                    seen[e[5]] = (ix[0] if len(ix) == 1 else None, e[5], cd if o is None else cor(o[2], cd))
        if s is not None:
            gather(trace_list(s.trace))
        for g, rs, w in I.residual:
            gather(trace_list(rs.trace))
        tests = list(seen.values())
        if not tests or any(t[0] is None for t in tests):
            c.ob("receive", W(f), False if tests else None, "each poll tests the request of one processor", "receive|poll")
            continue
        bad = {}
        nenv = 0
        for bits in itertools.product((0, 1), repeat=2 * P):
            rec, att = bits[:P], bits[P:]
            for outs in itertools.product((0, 1), repeat=len(tests)):
                nenv += 1
                base = {}
                for i in range(P):
                    base[("in", E_("m_vecMessageReceived", i))] = rec[i]
                    base[("in", E_("m_vecAreRecvBuffersAttached", i))] = att[i]
                for (ix, uid, cd), o in zip(tests, outs):
                    base[("out", uid, 1)] = o
                env = dict(base)
                try:
                    ex = [(ix, o) for (ix, uid, cd), o in zip(tests, outs) if ncond(cd, env)]
                    resid = any(ncond(g, env) for g, _, _ in I.residual)
                    arrived = {ix for ix, o in ex if o}
                    if resid:
                        if all(rec) or arrived:
                            bad["wait"] = "keeps waiting although a message arrived or all were received"
                        for g, rs, w in I.residual:
                            if ncond(g, env):
                                for i in range(P):
                                    if bool(ncond(I.load(rs, E_("m_vecMessageReceived", i), "b"), env)) != bool(rec[i]):
                                        bad["lost"] = "a message counts as received without being handed out"
                                    if not rec[i] and i not in {ix for ix, o in ex}:
                                        bad["poll"] = "an outstanding message is not polled"
                        continue
                    if s is None:
                        bad["none"] = "never returns"
                        continue
                    p = result(r, env)
                    if p == "null":
                        if not all(rec):
                            bad["early"] = "reports completion while messages %s are outstanding" % [i for i in range(P) if not rec[i]]
                        continue
                    ix = [i for i in range(P) if strip(p) == ("E", BYP, (num(i),))]
                    if len(ix) != 1:
                        bad["what"] = "returns %s" % (p,)
                        continue
                    ix = ix[0]
                    if rec[ix]:
                        bad["twice"] = "hands out a message twice"
                    if ix not in arrived:
                        bad["notyet"] = "hands out a message that has not arrived"
                    for i in range(P):
                        n_ = bool(ncond(I.load(s, E_("m_vecMessageReceived", i), "b"), env))
                        if n_ != bool(rec[i] or i == ix):
                            bad["mark"] = "message of processor %d %s" % (i, "not marked as received" if not n_ else "marked as received but not handed out")
                        na = nval(I.load(s, ("E", ("G", "attached"), (num(i),)), "i"), env)
                        if i == ix and not att[i] and na != 1 or na and (att[i] or i != ix) or na > 1:
                            bad["attach"] = "receive buffers of processor %d attached %d times (attached before: %s)" % (i, na, bool(att[i]))
                        fa = bool(ncond(I.load(s, E_("m_vecAreRecvBuffersAttached", i), "b"), env))
                        if fa != bool(att[i] or i == ix):
                            bad["attflag"] = "attachment of processor %d not recorded" % i
                except Undefined as x:
                    bad["undef"] = None
                    c.ob("receive", W(f), None, "%d processors: %s" % (P, x))
                    break
            if "undef" in bad:
                break
        bad.pop("undef", None)
        c.extra["receive_assignments_%d" % P] = nenv
        for k in ("wait", "lost", "poll", "none", "early", "what", "twice", "notyet", "mark", "attach", "attflag"):
            c.ob("receive", W(f), k not in bad, "%d processors: %s" % (P, bad.get(k) or {"wait": "ends waiting when a message arrives", "lost": "nothing counts as received unless handed out", "poll": "every outstanding message is polled",
                 "none": "returns", "early": "reports completion only when all were received", "what": "hands out the buffers of one processor", "twice": "hands out each message once", "notyet": "hands out only messages that arrived",
                 "mark": "marks exactly the message handed out", "attach": "receive buffers attached once, before first use", "attflag": "attachment recorded"}[k]), "receive|%s" % k)

    # ---- memory of the messages
    f = fns["Allocate"]
    for targets in ((5,), (7, 3, 7), (3, 3, 7), (2, 5, 2, 5), (0, 0, 0)):
        n = len(targets)
        tab = lambda a: n if a == REG else 0
        I = interp(0, None, tab=tab)
        st = State()
        for i, t in enumerate(targets):
            st.store[("F", E_("m_vecRegistry", i), EX + "m_ixTargetProcessor")] = num(t)
        s, r = go(I, f, None, st)
        if s is None:
            c.ob("memory", W(f), False, "Allocate refuses a valid registry %s" % (targets,), "memory|refuse")
            continue
        env = {("in", ("F", E_("m_vecRegistry", i), EX + "m_sByteSize")): 8 * (11 + 7 * i * i) for i in range(n)}
        env["*"] = atoms_true(I)
        msg = {}
        sz = prog.fn(EX + "GetMessageSize")
        for i in range(n):
            I2 = new_interp(prog)
            s2, r2 = run_function(I2, sz, E_("m_vecRegistry", i), {}, State())
            msg[i] = nval(r2, env)
        try:
            ref = [t[1] for t in I.throws if ncond(t[0], env)]
            c.ob("memory", W(f), not ref, "a valid registry with targets %s is accepted" % (targets,), "memory|accept")
            procs = [int(nval(I.load(s, E_("m_vecProcessors", i), "i"), env)) for i in range(len(set(targets)))]
            size = lambda a: int(nval(I.load(s, ("F", a, "$size"), "i"), env))
            c.ob("memory", W(f), size(PROCS) == len(set(targets)) and set(procs) == set(targets), "targets %s: each neighbouring processor listed once" % (targets,), "memory|procs")
            for q in ("m_vecBufferSize", "m_vecRecvBuffers", "m_vecSendBuffers", "m_vecRecvRequest", "m_vecSendRequest", "m_vecSendStatus", "m_vecMessageReceived", "m_vecAreRecvBuffersAttached", "m_vecRegistryByProcessor"):
                c.ob("memory", W(f), size(F_(q)) == len(procs), "targets %s: %s has an entry per processor" % (targets, q), "memory|entries|" + q)
            heap = {}
            for e, cd, lp in events(s):
                if e[0] == "newarr" and cd == T and not lp:
                    heap[e[1]] = nval(e[2], env)
            blocks = {}
            for p in range(len(procs)):
                mine = [i for i in range(n) if targets[i] == procs[p]]
                total = sum(msg[i] for i in mine)
                c.ob("memory", W(f), nval(I.load(s, E_("m_vecBufferSize", p), "i"), env) == total, "targets %s: message length is that of its buffers" % (targets,), "memory|length")
                c.ob("memory", W(f), I.load(s, E_("m_vecAreRecvBuffersAttached", p), "b") == F, "receive buffers not attached yet", "memory|unattached")
                for q in ("m_vecRecvBuffers", "m_vecSendBuffers"):
                    v = strip(I.load(s, E_(q, p), "p"))
                    ok = v[0] == "E" and v[1] in heap and heap[v[1]] >= total and (not v[2] or nval(v[2][0], env) == 0)
                    c.ob("memory", W(f), ok, "targets %s: %s of a processor is a block of its own of the length of the message" % (targets, q), "memory|block|" + q)
                    blocks[q, p] = v[1] if ok else None
                # list of buffers of this processor
                bp = ("E", BYP, (num(p),))
                k = size(bp)
                lst = [strip(I.load(s, ("E", bp, (num(j),)), "p")) for j in range(k)]
                c.ob("memory", W(f), sorted(map(repr, lst)) == sorted(repr(E_("m_vecRegistry", i)) for i in mine), "targets %s: the buffers listed for a processor are those sent there, each once" % (targets,), "memory|list")
                # send regions
                segs = []
                for i in mine:
                    sb = ("F", E_("m_vecRegistry", i), EX + "m_dSendBuffer")
                    d = [w for pl, w, _, pa, lo in I.stores if pl[0] == "F" and pl[1] == sb and pl[2].endswith("m_data") and not (w[0] == "null")]
                    d = strip(d[-1]) if d else None
                    ext = s.store.get(("EXT", sb, 0))
                    if d is None or ext is None or d[0] != "E":
                        segs.append(None)
                        continue
                    segs.append((d[1], nval(d[2][0], env) if d[2] else 0, 8 * nval(ext, env), msg[i]))
                ok = all(x is not None and x[0] == blocks["m_vecSendBuffers", p] and x[2] == x[3] for x in segs)
                if ok:
                    at = sorted((x[1], x[1] + x[2]) for x in segs)
                    ok = at[0][0] == 0 and at[-1][1] == total and all(a[1] == b[0] for a, b in zip(at, at[1:]))
                c.ob("memory", W(f), ok, "targets %s: send regions of a processor's buffers tile its message" % (targets,), "memory|regions")
            used = [b for b in blocks.values()]
            c.ob("memory", W(f), None not in used and len(set(used)) == len(used), "targets %s: no memory block used twice" % (targets,), "memory|distinct")
        except Undefined as x:
            c.ob("memory", W(f), None, "targets %s: %s" % (targets, x))
    I = interp(1)
    s, r = go(I, f)
    c.ob("memory", W(f), s is None, "a second Allocate is refused", "memory|again")
    I = interp(0, None, tab=lambda a: 2 if a == REG else 0)
    st = State()
    for i, t in enumerate((4, -1)):
        st.store[("F", E_("m_vecRegistry", i), EX + "m_ixTargetProcessor")] = num(t)
    c.ob("memory", W(f), go(I, f, None, st)[0] is None, "a buffer without target processor is refused", "memory|unset")

    # ---- locating the received buffers in a message
    f = fns["AttachRecvBuffers"]
    NB = 3 if c.tier == "thorough" else 2
    bp = ("E", BYP, (ONE,))
    EXB = lambda b: ("D", ("E", bp, (num(b),)))
    for nb in range(1, NB + 1):
        I = interp(3, None, peel=nb + 1, tab=lambda a: nb if a == bp else None)
        s, r = go(I, f, {f.params[0][1]: ONE})
        if s is None:
            c.ob("attach", W(f), False, "every message is refused, or reading one never ends (%d buffers)" % nb, "attach|refused|%d" % nb)
            continue
        head = lambda b: {"m_ixReserved": 0x01010101, "m_ixFirstPatch": 100 + b, "m_ixSecondPatch": 200 + b, "m_ixDirection": b}
        msz = lambda b: 8 * (12 + 5 * b * b)
        I3 = new_interp(prog)
        s3, r3 = run_function(I3, prog.fn(EX + "GetMessageSize"), ("G", "x"), {}, State())
        hdr = int(nval(r3, {("in", ("F", ("G", "x"), EX + "m_sByteSize")): 0}))
        hc = [k for k in prog.classes if k.endswith("MessageHeader")]
        ints = [t for q, t, ln, ini in prog.classes[hc[0]]["fields"]] if len(hc) == 1 else []
        if ints and all(base_type(t) == "int" for t in ints):
            full = [nval(r3, {("in", ("F", ("G", "x"), EX + "m_sByteSize")): v}) for v in (0, 8, 8 * 37)]
            c.ob("attach", W(f), full == [v + 4 * len(ints) for v in (0, 8, 8 * 37)], "the size of a buffer's message is that of its data and its header of %d bytes" % (4 * len(ints)), "attach|size")
        else:
            c.ob("attach", W(f), None, "message header not recognised")

        def scenario(order, total=None, extra=None):
            """message = headers of these buffers in this order -> environment."""
            pos, lay = 0, {}
            for b in order:
                lay[pos] = head(b) if isinstance(b, int) else b[1]
                pos += msz(b if isinstance(b, int) else b[0]) + hdr
            env = {("in", E_("m_vecBufferSize", 1)): pos if total is None else total}

            def star(t):
                if isinstance(t, tuple) and t and t[0] == "attached":
                    return 0
                if t[0] == "in" and t[1][0] == "E" and t[1][1] == F_("m_vecBufferSize"):
                    return 8 * 999
                if t[0] == "in" and t[1][0] == "F":
                    q, base = t[1][2].split("::")[-1], t[1][1]
                    for b in range(nb):
                        if base == EXB(b):
                            return {"m_ixTargetPatch": 100 + b, "m_ixSourcePatch": 200 + b, "m_dir": b, "m_sByteSize": msz(b)}.get(q)
                    if q in head(0):
                        pl = strip(base)
                        o = None
                        if pl == ("D", E_("m_vecRecvBuffers", 1)):
                            o = 0
                        elif pl[0] == "E" and strip(pl[1]) == ("D", E_("m_vecRecvBuffers", 1)):
                            o = int(nval(pl[2][0], env)) if pl[2] else 0
                        if o is not None:
                            return lay.get(o, {k: -7 for k in head(0)})[q]
                return None
            env["*"] = star
            return env, lay
        def attached(env):
            got = {}
            for pl, v, w, pa, lo in I.stores:
                if pl[0] == "F" and pl[2].endswith("m_data") and pl[1][0] == "F" and pl[1][2] == EX + "m_dRecvBuffer" and ncond(pa, env):
                    b = [b for b in range(nb) if pl[1][1] == EXB(b)]
                    d = strip(v)
                    if d[0] == "D":
                        off, blk = 0, d
                    else:
                        off, blk = (nval(d[2][0], env) if d[2] else 0), d[1]
                    got.setdefault(b[0] if b else None, []).append((blk, off))
            return got
        for order in itertools.permutations(range(nb)):
            env, lay = scenario(order)
            try:
                ref = [t for t in I.throws if ncond(t[0], env)]
                res = any(ncond(g, env) for g, _, _ in I.residual)
                c.ob("attach", W(f), not ref and not res, "a message with its %d buffers in order %s is accepted" % (nb, order), "attach|accept")
                got = attached(env)
                at, ok = 0, True
                for b in order:
                    ext = s.store.get(("EXT", ("F", EXB(b), EX + "m_dRecvBuffer"), 0))
                    g = got.get(b, [])
                    if g != [(("D", E_("m_vecRecvBuffers", 1)), at)] or ext is None or nval(ext, env) * 8 != msz(b) + hdr:
                        ok = False
                    at += msz(b) + hdr
                c.ob("attach", W(f), ok, "order %s: each buffer reads its own part of the message, header included" % (order,), "attach|region|%d" % nb)
            except Undefined as x:
                c.ob("attach", W(f), None, "order %s: %s" % (order, x))
        for what, args in (("an unknown header", ([b for b in range(nb - 1)] + [(nb - 1, {"m_ixReserved": 0x01010101, "m_ixFirstPatch": 9, "m_ixSecondPatch": 9, "m_ixDirection": 9})],)),
                           ("a message longer than its buffers", (list(range(nb)), 100000)), ("a message shorter than its buffers", (list(range(nb)), msz(0) + hdr - 8))):
            env, lay = scenario(*args)
            try:
                c.ob("attach", W(f), any(ncond(t[0], env) for t in I.throws), "%s is refused (%d buffers)" % (what, nb), "attach|refuse|" + what)
                end = env[("in", E_("m_vecBufferSize", 1))]
                c.ob("attach", W(f), all(off < end for l in attached(env).values() for _, off in l), "%s: nothing is read beyond the end of the message" % what, "attach|beyond|" + what)
            except Undefined as x:
                c.ob("attach", W(f), None, "%s: %s" % (what, x))
        if nb > 1:
            env, lay = scenario([0])
            try:
                c.ob("attach", W(f), any(ncond(t[0], env) for t in I.throws), "a message lacking a buffer is refused", "attach|refuse|lacking")
            except Undefined as x:
                c.ob("attach", W(f), None, "lacking: %s" % x)
    for p in (-1, 3):
        I = interp(3, None, peel=1)
        s, r = go(I, f, {f.params[0][1]: num(p)})
        c.ob("attach", W(f), s is None, "processor index %d of 3 is refused" % p, "attach|index|%d" % p)

    # ---- one exchange from start to end
    GR = ("G", "grid")
    gf = {}
    for cl in prog.classes:
        if cl == "Grid":
            for q, t, ln, ini in prog.classes[cl]["fields"]:
                gf[q] = t
    regf = [("F", GR, q) for q, t in gf.items() if base_type(t) == "ExchangeBufferRegistry"]
    act = [("F", GR, q) for q, t in gf.items() if ("vector" in t and "GridPatch *" in t or t == "GridPatchVector")]
    blk = [("F", GR, q) for q, t in gf.items() if t == "bool" and "BlockParallel" in q]
    if len(regf) != 1 or len(act) != 1:
        raise AnalysisBroken("members of Grid for the exchange not recognised")
    regp, actp = regf[0], act[0]
    VR = ("F", regp, R + "m_vecRegistry")
    locals_ = {0: 1, 1: 0, 2: 1}
    msgs = [[2, 0], [1]]
    lists = [("G", "list%d" % i) for i in range(len(msgs))]

    def exchange(bad=None, blocked=False, peel=6, side=None):
        mine = [[b for b in ms if not (side == "pack" and b == 1)] for ms in msgs]
        EXT = ("G", "foreign")

        def hook(I, st, fr, n, key, qual, place, args):
            q = qual or ""
            if place == regp and q.startswith(R):
                m = q[len(R):]
                if m in ("WaitSend", "PrepareExchange", "Send"):
                    st.event("step", m)
                    return ("opq", ("void",))
                if m == "WaitReceive":
                    k = sum(1 for e in trace_list(st.trace) if e[0] == "step" and e[1] == "WaitReceive")
                    st.event("step", m, k)
                    return ("ptr", lists[k]) if k < len(lists) else ("null",)
                if m == "GetExchangeBuffers":
                    return ("obj", VR)
            if q in ("GridPatch::PackExchangeBuffer", "GridPatch::UnpackExchangeBuffer"):
                vs = [I.ev(a, st, fr) for a in args[:-1]]
                st.event("step", q[11:], place, tuple(vs), I.obj_place(args[-1], st, fr))
                return ("opq", ("void",))
            return NotImplemented
        I = new_interp(prog)
        I.peel = peel

        def tab(a):
            if a == VR:
                return 3
            if a == actp:
                return 2
            if a in lists:
                return len(mine[lists.index(a)]) + (1 if side == "unpack" and a == lists[1] else 0)
            return None
        I.field_init = sizes(tab)
        stdmodel.enable(I, hook)
        st = State()
        for q in blk:
            st.store[q] = T if blocked else F
        for b, l in locals_.items():
            st.store[("F", ("E", VR, (num(b),)), EX + "m_ixLocalActiveSourcePatch")] = num(bad if side == 'pack' and b == 1 else l)
        for k, ms in enumerate(mine):
            ch = Chain("havoc")
            for j, b in enumerate(ms):
                ch = Chain("def", ch, (num(j),), ("ptr", ("E", VR, (num(b),))))
            if side == "unpack" and k == 1:
                ch = Chain("def", ch, (num(len(ms)),), ("ptr", EXT))
                st.store[("F", EXT, EX + "m_ixLocalActiveSourcePatch")] = num(bad)
            st.store[("ARR", lists[k])] = ch
        s, r = run_function(I, fx, GR, {fx.params[0][1]: atom(("type",)), fx.params[1][1]: atom(("index",))}, st)
        c.functions |= set(I.fnlog)
        if s is None:
            return None, I
        return [(e, cd, lp) for e, cd, lp in flatten(trace_list(s.trace)) if e[0] == "step"], I
    ev, I = exchange()
    if ev is None or I.residual:
        c.ob("sequence", W(fx), False if ev is None else None, "the exchange completes", "sequence|complete")
    else:
        c.ob("sequence", W(fx), all(cd == T and not lp for e, cd, lp in ev), "every step of the exchange is unconditional", "sequence|uncond")
        seq = [e for e, cd, lp in ev]
        at = lambda m: [i for i, e in enumerate(seq) if e[1] == m]
        packs, unp = at("PackExchangeBuffer"), at("UnpackExchangeBuffer")
        ws, pe, sd, wr = at("WaitSend"), at("PrepareExchange"), at("Send"), at("WaitReceive")
        c.ob("sequence", W(fx), len(pe) == 1 and len(sd) == 1 and len(wr) == len(msgs) + 1, "receives posted once, messages sent once, waits until none is outstanding", "sequence|once")
        if ws and pe and sd and packs and unp and wr:
            c.ob("sequence", W(fx), min(ws) < pe[0] and min(ws) < min(packs), "previous sends complete before their buffers are prepared and packed", "sequence|waitsend")
            c.ob("sequence", W(fx), pe[0] < min(packs), "buffers are reset before packing", "sequence|reset")
            c.ob("sequence", W(fx), max(packs) < sd[0], "everything is packed before it is sent", "sequence|pack")
            c.ob("sequence", W(fx), sd[0] < wr[0] and pe[0] < wr[0], "messages are sent before waiting for the others", "sequence|send")
        else:
            c.ob("sequence", W(fx), False, "the exchange waits for sends, prepares, packs, sends, receives and unpacks", "sequence|all")
        want = sorted((repr(("E", VR, (num(b),))), repr(l)) for b, l in locals_.items())

        def patch_of(pl):
            for l in range(2):
                if strip(pl) in (("D", ("E", actp, (num(l),))), ("E", actp, (num(l),))):
                    return l
            return None
        for nm, idx in (("packed", packs), ("unpacked", unp)):
            got = sorted((repr(strip(seq[i][4])), repr(patch_of(seq[i][2]))) for i in idx)
            c.ob("sequence", W(fx), got == want, "every registered buffer is %s exactly once, for its own patch" % nm, "sequence|" + nm)
            c.ob("sequence", W(fx), all(seq[i][3] == (atom(("type",)), atom(("index",))) for i in idx), "the data type and instance asked for are %s" % nm, "sequence|type|" + nm)
        for k in range(len(msgs)):
            if len(wr) == len(msgs) + 1:
                got = [repr(strip(seq[i][4])) for i in unp if wr[k] < i < wr[k + 1]]
                c.ob("sequence", W(fx), sorted(got) == sorted(repr(("E", VR, (num(b),))) for b in msgs[k]), "the buffers of a message are unpacked after it arrived", "sequence|arrived")
    for bad in (-1, 2):
        for side in ("pack", "unpack"):
            ev, I = exchange(bad=bad, side=side)
            c.ob("sequence", W(fx), ev is None, "a buffer of a patch that is not active (%d of 2) is refused before it is %sed" % (bad, side), "sequence|refuse|%s|%d" % (side, bad))
    if blk:
        ev, I = exchange(blocked=True)
        c.ob("sequence", W(fx), ev == [], "blocked exchange does nothing", "sequence|blocked")

    # ---- registering keeps the buffer as it is
    f = fns["Register"]
    I = interp(2)
    s, r = go(I, f)
    fields = [(q, scalar_code(t)) for q, t, ln, ini in prog.classes["ExchangeBuffer"]["fields"] if scalar_code(t) in ("i", "b")]
    src = ("P", f.params[0][1])
    ok = s is not None and I.load(s, ("F", REG, "$size"), "i") == num(5)
    c.ob("register", W(f), ok, "one buffer is added", "register|count")
    for q, tc in fields:
        a = I.load(s, ("F", E_("m_vecRegistry", 4), q), tc) if s is not None else None
        c.ob("register", W(f), a == I.load(s, ("F", src, q), tc), "%s is kept" % q.split("::")[-1], "register|" + q)
    for a, n in (("post", 20), ("waitsend", 4), ("receive", 20), ("memory", 60), ("attach", 12), ("sequence", 14), ("register", 10)):
        c.need(a, n)
    return c.finish("proof", "Each function of the registry and Grid::Exchange is interpreted abstractly; memory offsets, message lengths and the conditions of every call are formulas in the buffer sizes, flags and message headers, and MPI calls follow their contract.",
                    {"post": "one receive and one send per neighbouring processor, arguments belonging together", "waitsend": "pending sends completed before reuse", "receive": "a message is handed out once, after arrival; completion only when all were", "memory": "message regions tile disjoint blocks",
                     "attach": "received regions located by header", "sequence": "order of one exchange; each buffer packed and unpacked once", "register": "registered buffer kept"},
                    assumptions=["contracts of MPI_Irecv, MPI_Isend, MPI_Test, MPI_Waitall", "number of processors 1-3 and of buffers 1-4 stand for all: the code treats them uniformly in loops"])


def result(v, env):
    if isinstance(v, tuple) and v:
        if v[0] == "phi":
            return result(v[2] if ncond(v[1], env) else v[3], env)
        if v[0] == "null":
            return "null"
        if v[0] == "ptr":
            return v
    raise Undefined("result %s" % (v,))
