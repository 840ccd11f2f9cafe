"""C15: a restart file gives back the whole model it was written from."""
import stdmodel
from gll import *
from effects import Effects, is_node
from prog import walk

OM = ("G", "om")
GRID = ("G", "grid")
VOID = ("opq", ("void",))
O = "OutputManagerComposite::"


class IO(object):
    """One call of Output or Input on one process; the file is a cursor, containers are sizes."""

    def __init__(self, prog, c, rank, active, count, sizes, order, check=None):
        self.prog, self.rank, self.active, self.count, self.sizes, self.order = prog, rank, active, count, sizes, list(order)
        self.check = check
        self.I = new_interp(prog)
        stdmodel.enable(self.I, self.hook)
        self.I.unroll = 24
        self.c = c

    def cursor(self, st):
        return st.store.get(("G", "cursor"), ZERO)

    def target(self, v):
        p = v[1] if isinstance(v, tuple) and v[0] == "ptr" else v
        while isinstance(p, tuple) and p[0] == "E" and all(x == ZERO for x in p[2]):
            p = p[1]
        return p

    def hook(self, I, st, fr, n, key, q, place, args):
        q = q or ""
        m = q.split("::")[-1]
        A = lambda i: I.as_num(I.ev(args[i], st, fr))
        if q.startswith("std::fpos<"):
            if m == "ctor":
                v = I.ev(args[0], st, fr)
            elif m == "operator+":
                a, b = self.val(st, I.ev(args[0], st, fr)) if place is None else self.load(st, place), I.as_num(I.ev(args[-1], st, fr))
                v = add(a, b)
            elif m in ("operator long", "operator long long"):
                v = self.load(st, place)
            else:
                return NotImplemented
            return self.val(st, v)
        if q.startswith("std::basic_ostream<char>::") or q.startswith("std::basic_istream<char>::"):
            if m in ("write", "read"):
                v, k = I.ev(args[0], st, fr), I.as_num(I.ev(args[1], st, fr))
                at = self.cursor(st)
                t = self.target(v)
                st.event("io", m, at, k, t)
                if m == "read" and t[0] not in ("mem",):
                    if k == num(4):
                        I.store_to(st, t, self.check, None)
                    else:
                        st.store[("F", t, "Time::m_iSecond")] = atom(("file", "second"))
                st.store[("G", "cursor")] = add(at, k)
                return VOID
            if m in ("seekp", "seekg"):
                st.store[("G", "cursor")] = self.val(st, I.ev(args[0], st, fr))
                return VOID
            if m in ("tellp", "tellg"):
                return self.cursor(st)
        if q.startswith("std::basic_ofstream") or q.startswith("std::basic_ifstream") or q.startswith("std::basic_ios"):
            if m == "is_open":
                return F
            if m == "operator!":
                return F
            return VOID
        if m == "IsFileOpen":
            return T
        if m == "MPI_Comm_rank":
            I.store_to(st, I.to_place(I.ev(args[1], st, fr)), num(self.rank), None)
            return ZERO
        if m in ("MPI_Reduce", "MPI_Allreduce"):
            st.event("do", m, A(2))
            arr = ("F", OM, "OutputManagerComposite::m_vecGridPatchByteSize")
            have = [(p, k) for p in range(self.count) for k in (0, 1) if I.load_elem(st, ("E", arr, (num(p), num(k))), "i") == num(self.sizes[p][k])]
            st.event("do", "sizes", tuple(have))
            if m == "MPI_Allreduce" or self.rank == 0:
                for p in range(self.count):
                    for k in (0, 1):
                        if p not in self.active:
                            I.store_to(st, ("E", arr, (num(p), num(k))), num(self.sizes[p][k]), None)
            return ZERO
        if m == "MPI_Isend":
            st.event("do", m, self.target(I.ev(args[0], st, fr)), A(1), A(3), A(4), I.to_place(I.ev(args[6], st, fr)))
            return ZERO
        if m == "MPI_Waitall":
            st.event("do", m, A(0), I.to_place(I.ev(args[1], st, fr)))
            return ZERO
        if m == "MPI_Recv":
            buf = I.to_place(I.ev(args[0], st, fr))
            if not self.order:
                st.event("do", "MPI_Recv", "none left")    # hangs; the rest does not matter
                p, k = 0, 0
            else:
                p, k = self.order.pop(0)
                st.event("do", "MPI_Recv", p, k, A(1))
            I.store_to(st, ("E", buf[1], (ZERO,)), num(p), None)
            I.store_to(st, ("F", I.to_place(I.ev(args[6], st, fr)), "MPI_Status::MPI_TAG" if False else self.tagfield()), num(k), None)
            return ZERO
        if q.startswith("MPI_"):
            return ZERO
        if m == "GetPatchCount":
            return num(self.count)
        if m == "GetTotalSize" and q.startswith("DataArray2D"):
            e = [st.store.get(("EXT", place, k)) for k in (0, 1)]
            return NotImplemented if None in e else mul(*e)
        if m == "GetActivePatchCount":
            return num(len(self.active))
        if m == "GetActivePatch":
            i = int(A(0).const())
            return ("ptr", ("G", "patch", self.active[i]))
        if m == "GetPatchIndex" and q.startswith("GridPatch"):
            return num(place[2])
        if m == "GetDataContainerGeometric":
            return ("obj", ("cont", 0, place[2]))
        if m == "GetDataContainerActiveState":
            return ("obj", ("cont", 1, place[2]))
        if m in ("GetDataContainerParameters", "GetDataContainerPatchData"):
            return ("obj", ("cont", m[16:]))
        if q == "DataContainer::GetTotalByteSize":
            return num(self.size(place))
        if q == "DataContainer::GetPointer":
            return ("ptr", ("E", ("mem",) + place[1:], (ZERO,)), "elem")
        if m in ("InitializeDataLocal", "DistributePatches"):
            st.event("do", m)
            return VOID
        if m == "GetModel":
            return ("obj", ("G", "model"))
        return NotImplemented

    def tagfield(self):
        for q in self.prog.fields:
            if q.split("::")[-1] == "MPI_TAG":
                return q
        return "ompi_status_public_t::MPI_TAG"

    def size(self, place):
        if place[1] in (0, 1):
            return self.sizes[place[2]][place[1]]
        return {"Parameters": 136, "PatchData": 264}[place[1]]

    def load(self, st, place):
        return self.val(st, st.store.get(place, ("obj", place)))

    def val(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "obj":
            v = st.store.get(v[1], v)
        if not isinstance(v, Poly):
            raise AnalysisBroken("file position not resolved: %s" % (v,))
        return v

    def __call__(self, name):
        f = self.prog.fn(O + name)
        st = State()
        st.store[("F", OM, "OutputManager::m_ixOutputTime")] = ZERO
        st.store[("EXT", ("F", OM, O + "m_vecRecvBuffer"), 0)] = ZERO
        a = {}
        s, r = run_function(self.I, f, OM, a, st)
        self.c.functions |= set(self.I.fnlog)
        if s is None:
            return None, None, None
        ev = []
        for e, cond, loops in flatten(trace_list(s.trace)):
            if e[0] in ("io", "do"):
                if cond != T or loops:
                    raise AnalysisBroken("file operations depend on %s" % (cond,))
                ev.append(e)
        return ev, s, r


def image(ev):
    """(offset, length, what) of the file operations, offsets as numbers."""
    out = []
    for e in ev:
        if e[0] == "io":
            out.append((int(e[2].const()), int(e[3].const()), e[4]))
    return out


def beyond(I):
    """An element the interpreted code touches outside of the array it allocated."""
    if I.beyond:
        a, d, i, k, w = I.beyond[0]
        return "element %d in dimension %d of %s, which has %d, at %s" % (i, d, a[-1] if isinstance(a, tuple) else a, k, "%s:%s" % tuple(w[:2]) if isinstance(w, tuple) else w)
    return None


def files(c, prog):
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    g = prog.fields
    check = atom(("check",))
    for count, parts in ((4, ((0, 2), (1, 3))), (3, ((2,), (0, 1))), (2, ((0, 1), ()))):
        sizes = [(1000 + 8 * p * p, 400 + 16 * p) for p in range(count)]
        if count == 3:
            sizes = [z[::-1] for z in sizes]
        tag = "%d patches, first process owns %s" % (count, list(parts[0]))
        remote = [(p, k) for p in parts[1] for k in (0, 1)]
        remote = remote[::-1]
        x = IO(prog, c, 0, parts[0], count, sizes, remote)
        ev, s, r = x("Output")
        img = image(ev)
        bad = None
        for i, (a, n, t) in enumerate(img):
            for b, k, u in img[i + 1:]:
                if a < b + k and b < a + n:
                    bad = "%s and %s overlap" % (t, u)
        recv = [e for e in ev if e[:2] == ("do", "MPI_Recv")]
        if len(recv) != len(remote) or x.order:
            bad = bad or "%d messages received for %d containers of other processes" % (len(recv), len(remote))
        recv = [e for e in recv if e[2] != "none left"]
        if any(int(e[4].const()) < max(max(z) for z in sizes) for e in recv):
            bad = bad or "receive buffer of %s bytes" % (recv[0][4],)
        wrote = {}
        k = 0
        nh = 4
        for j, (a, n, t) in enumerate(img[nh:]):
            if t[0] == "mem":
                wrote[t[2], t[1]] = (a, n)
        # received containers are written straight after they arrive
        seq = [e for e in ev if e[0] == "io" or e[1] == "MPI_Recv"]
        for i, e in enumerate(seq):
            if e[:2] == ("do", "MPI_Recv") and e[2] != "none left":
                if i + 1 >= len(seq) or seq[i + 1][0] != "io" or "m_vecRecvBuffer" not in str(seq[i + 1][4]):
                    bad = bad or "a received container is not written"
                else:
                    wrote[e[2], e[3]] = (int(seq[i + 1][2].const()), int(seq[i + 1][3].const()))
        for p in range(count):
            for k in (0, 1):
                if (p, k) not in wrote:
                    bad = bad or "patch %d, container %d is not written" % (p, k)
                elif wrote[p, k][1] != sizes[p][k]:
                    bad = bad or "patch %d, container %d: %d bytes written of %d" % (p, k, wrote[p, k][1], sizes[p][k])
        head = img[:nh]
        want = [("F", OM, O + "m_iCheck"), ("F", ("G", "model"), "Model::m_time"), ("mem", "Parameters"), ("mem", "PatchData")]
        if [t for a, n, t in head] != want:
            bad = bad or "head of the file: %s" % ([t for a, n, t in head],)
        if [e for e in ev if e[:2] == ("do", "sizes")] != [("do", "sizes", tuple((p, k) for p in sorted(parts[0]) for k in (0, 1)))]:
            bad = bad or "sizes of the own containers are not those sent to the reduction"
        red = [e for e in ev if e[1] in ("MPI_Reduce", "MPI_Allreduce")]
        if len(red) != 1 or red[0][2] != num(2 * count):
            bad = bad or "reduction of the sizes: %s" % (red,)
        bad = bad or beyond(x.I)
        c.ob("write", W(O + "Output"), bad is None, "%s: every container of every patch in its own place%s" % (tag, ": " + bad if bad else ""), "write|0|%d" % count)
        # the other process
        if parts[1]:
            x = IO(prog, c, 1, parts[1], count, sizes, [])
            ev, s, r = x("Output")
            bad = None
            snd = [e for e in ev if e[1] == "MPI_Isend"]
            got = sorted((e[2][2], e[2][1], int(e[3].const())) for e in snd if e[2][0] == "mem")
            if got != sorted((p, k, sizes[p][k]) for p in parts[1] for k in (0, 1)):
                bad = "sends %s" % (got,)
            elif any(e[4] != ZERO or e[5] != num(e[2][1]) for e in snd):
                bad = "sent to %s with tag %s" % (snd[0][4], snd[0][5])
            elif image(ev):
                bad = "writes to the file"
            else:
                left = [e[6] for e in snd]
                if len(set(left)) != len(left):
                    bad = "two sends share a request"
                for e in ev:
                    if e[1] == "MPI_Waitall":
                        b = e[3]
                        for i in range(int(e[2].const())):
                            q_ = ("E", b[1], (add(b[2][0], num(i)),))
                            left = [z for z in left if z != q_]
                if left:
                    bad = bad or "%d sends are not waited for" % len(left)
            red = [e for e in ev if e[1] in ("MPI_Reduce", "MPI_Allreduce")]
            if len(red) != 1 or red[0][2] != num(2 * count):
                bad = bad or "reduction of the sizes: %s" % (red,)
            bad = bad or beyond(x.I)
            c.ob("write", W(O + "Output"), bad is None, "%s: the other process sends each of its containers once%s" % (tag, ": " + bad if bad else ""), "write|1|%d" % count)
        # ---- reading, with any distribution
        for rank, act in ((0, parts[0]), (1, parts[1]), (0, tuple(range(count)))):
            if not act:
                continue
            x = IO(prog, c, rank, act, count, sizes, [], check=num(77))
            x.I.field_init0 = None
            ev, s, r = run_input(x, 77)
            img2 = image(ev)
            bad = None
            want2 = [(a, n) for a, n, t in head]
            if [(a, n) for a, n, t in img2[:nh]] != want2:
                bad = "head of the file read as %s, written as %s" % ([(a, n) for a, n, t in img2[:nh]], want2)
            if [t for a, n, t in img2[2:nh]] != want[2:]:
                bad = bad or "head of the file read into %s" % ([t for a, n, t in img2[2:nh]],)
            rd = {}
            for a, n, t in img2[nh:]:
                if t[0] == "mem":
                    rd[t[2], t[1]] = (a, n)
            for p in act:
                for k in (0, 1):
                    if rd.get((p, k)) != wrote.get((p, k)):
                        bad = bad or "patch %d, container %d read from %s, written at %s" % (p, k, rd.get((p, k)), wrote.get((p, k)))
            seq = [e[1] if e[0] == "do" else e[4] for e in ev if e[0] == "io" or e[1] in ("InitializeDataLocal", "DistributePatches")]
            try:
                o = [seq.index(z) for z in (("mem", "Parameters"), "InitializeDataLocal", ("mem", "PatchData"), "DistributePatches")]
                o.append(min([i for i, z in enumerate(seq) if z[0] == "mem" and z[1] in (0, 1)]))
                if o != sorted(o):
                    bad = bad or "order of reading: %s" % (seq,)
            except ValueError:
                bad = bad or "order of reading: %s" % (seq,)
            t2 = img2[1][2]
            if not (isinstance(r, tuple) and s.store.get(("F", r[1], "Time::m_iSecond")) == atom(("file", "second"))):
                bad = bad or "the time of the file is not returned"
            bad = bad or beyond(x.I)
            c.ob("read", W(O + "Input"), bad is None, "%s, process %d with patches %s reads what was written%s" % (tag, rank, list(act), ": " + bad if bad else ""), "read|%d|%s" % (count, act))
        x = IO(prog, c, 0, parts[0], count, sizes, [], check=num(78))
        ev, s, r = run_input(x, 77)
        c.ob("read", W(O + "Input"), s is None, "a file with other check bits is refused", "check|%d" % count)
    # ---- containers of other processes are told apart by the number they begin with
    f = prog.fn("GridPatch::InitializeDataLocal")
    for cont in ("GridPatch::m_dcGeometric", "GridPatch::m_dcActiveState"):
        first = None
        for n in walk(f.body):
            if first is None and n[0] == "mcall" and str(n[3]).endswith("::PushDataChunk") and is_node(n[4]) and n[4][0] == "mem" and n[4][3] == cont:
                first = next((x[3] for x in walk(n[5]) if x[0] == "mem"), None)
        setter = False
        for n in walk(f.body):
            if n[0] in ("asg", "ocall", "mcall") and (n[0] == "asg" or str(n[3]).endswith("operator=")):
                ms = [x[3] for x in walk(n) if x[0] == "mem"]
                setter = setter or (first in ms and "GridPatch::m_ixPatch" in ms and ms.index(first) < ms.index("GridPatch::m_ixPatch"))
        c.ob("write", W(f.qual), setter, "%s begins with the index of the patch (%s)" % (cont, first), "label|" + cont)
    c.need("write", 7)
    c.need("read", 8)


def run_input(x, check):
    f = x.prog.fn(O + "Input")
    st = State()
    st.store[("F", OM, O + "m_iCheck")] = num(check)
    s, r = run_function(x.I, f, OM, {}, st)
    x.c.functions |= set(x.I.fnlog)
    if s is None:
        return None, None, None
    return [e for e, cd, lp in flatten(trace_list(s.trace)) if e[0] in ("io", "do")], s, r


SETUP = ("_TempestSetupCubedSphereModel", "_TempestSetupCartesianModel", "Model::SetTestCase")


def decide(restart):
    def d(n):
        if not is_node(n):
            return None
        if n[0] == "cast":
            for x in n[2:]:
                if is_node(x):
                    return d(x)
            return None
        if n[0] in ("ocall", "mcall") and str(n[3]).split("::")[-1] in ("operator==", "operator!=", "empty", "length", "size"):
            if any(x[0] == "mem" and str(x[3]).endswith("::strRestartFile") for x in walk(n)):
                m = str(n[3]).split("::")[-1]
                return (not restart) if m in ("operator==", "empty") else restart
            return None
        if n[0] == "un" and n[2] == "!":
            v = d(n[3])
            return None if v is None else not v
        if n[0] == "bin" and n[2] == "&&":
            a, b = d(n[3]), d(n[4])
            return False if a is False or b is False else True if a and b else None
        if n[0] == "bin" and n[2] == "||":
            a, b = d(n[3]), d(n[4])
            return True if a or b else False if a is False and b is False else None
        if n[0] == "bin" and n[2] in ("==", "!=", ">"):
            v = d(n[3])
            if v is None:
                return None
            return not v if n[2] == "==" else v
        if n[0] == "mem" and n[3] == "Model::m_fGridFromRestartFile":
            return restart
        if n[0] == "mem" and n[3] in ("Model::m_fRestartPerturbation", "_TempestCommandLineVariables::fRestartPerturbation"):
            return False
        return None
    return d


def complete(c, prog):
    """members set up only on a cold start and read in the run are in the file."""
    C, R = Effects(prog, decide(False)), Effects(prog, decide(True))
    roots = [f for f in prog.fns.values() if f.qual in SETUP]
    if len(roots) < 3:
        raise AnalysisBroken("set-up functions not found")
    go = prog.byqual["Model::Go"]
    rc, rr = C.reach(roots), R.reach(roots)
    rg = R.reach(go)
    wc, wr, wg = C.sites(rc, 0), R.sites(rr, 0), R.sites(rg, 0)
    rd = {}
    for d_ in (R.sites(rg, 1), R.sites(rr, 1)):
        for k, v in d_.items():
            rd.setdefault(k, set()).update(v)
    # containers the file holds
    saved = set()
    out = prog.fn(O + "Output")
    inp = prog.fn(O + "Input")

    def containers(f):
        r = set()
        for k in Effects(prog).reach([f]):
            g = prog.fns[k]
            if "DataContainer" in str(g.ret):
                for n in walk(g.body):
                    if n[0] == "mem" and "::m_dc" in n[3]:
                        r.add(n[3])
        return r
    conts = containers(out) & containers(inp)
    if len(conts) < 4:
        c.ob("complete", (out.file, out.line, out.qual), False, "containers both written and read: %s" % sorted(conts), "containers")
    for f in prog.fns.values():
        for n in walk(f.body):
            if n[0] == "mcall" and str(n[3]).endswith("::PushDataChunk") and is_node(n[4]) and n[4][0] == "mem" and n[4][3] in conts:
                for x in walk(n[5]):
                    if x[0] == "mem":
                        saved.add(x[3])
                        break
    classes = set(["Model", "PhysicalConstants", "Grid", "GridPatch"]) | set(prog.subclasses("Grid")) | set(prog.subclasses("GridPatch"))
    n = 0
    for q in sorted(wc):
        if q.rsplit("::", 1)[0] not in classes:
            continue
        only = wc[q] - wr.get(q, set()) - wg.get(q, set())    # what the run itself computes is not set-up
        if not only:
            continue
        n += 1
        again = wr.get(q, set()) - wc[q]
        k, ln = sorted(only, key=lambda s: (prog.fns[s[0]].file, s[1]))[0]
        f = prog.fns[k]
        ok = q in saved or bool(again) or q not in rd
        why = "in the file" if q in saved else "set on restart" if again else "not read" if ok else "read in the run, but neither in the file nor set on restart"
        c.ob("complete", (f.file, ln, f.qual), ok, "%s, set on a cold start: %s" % (q, why), "complete|" + q)
    # ---- restored members are not set up again after the file is read
    after = [prog.byqual[q] for q in ("Grid::Initialize", "Grid::InitializeExchangeBuffersFromActivePatches", "Grid::InitializeConnectivity")]
    roots = [x for l in after for x in l]
    for x in list(roots):
        roots += [prog.fns[k] for k in prog.all_overriders(x.key) if k in prog.fns]
    w = R.sites(R.reach(roots), 0)
    for q in sorted(saved):
        if not (q.startswith("GridPatch::m_datavec") or q in ("GridPatch::m_dataTopography", "GridPatch::m_dataRefStateNode", "GridPatch::m_dataRefStateREdge", "Grid::m_dZtop", "GridPatch::m_dataZLevels", "GridPatch::m_dataZInterfaces",
                "GridPatch::m_dataRayleighStrengthNode", "GridPatch::m_dataRayleighStrengthREdge", "GridPatch::m_dataTopographyDeriv", "GridPatch::m_dataRefTracers")):
            continue
        at = sorted((prog.fns[k].file, ln, prog.fns[k].qual) for k, ln in w.get(q, ()))
        c.ob("kept", at[0] if at else (out.file, out.line, out.qual), not at, "%s, restored from the file, is left alone while the grid is initialised%s" % (q, " (set in %s)" % at[0][2] if at else ""), "kept|" + q)
    c.need("complete", 20)
    c.need("kept", 8)


def resume(c, prog):
    """order of the restart and start of the run from it."""
    W = lambda q: (prog.fn(q).file, prog.fn(q).line, q)
    M = ("this",)
    q = "Model::SetGridFromRestartFile"

    def hook(I, st, fr, n, key, qual, place, args):
        m = (qual or "").split("::")[-1]
        if m == "Input" and qual.startswith("OutputManagerComposite"):
            p = ("G", "filetime")
            st.event("do", "Input")
            for x in TF:
                st.store[("F", p, x)] = atom(("file", x))
            return ("obj", p)
        if qual in ("OutputManagerComposite::ctor", "OutputManager::ctor"):
            return ("obj", place) if place is not None else NotImplemented
        if m in ("Initialize", "InitializeExchangeBuffersFromActivePatches", "InitializeConnectivity") and qual.startswith("Grid"):
            st.event("do", m)
            return VOID
        if qual.startswith("OutputManager") and m.startswith("~"):
            return VOID
        return NotImplemented
    TF = [f for f in prog.fields if f.rsplit("::", 1)[0] == "Time"]
    bad = None
    for t in TF:
        if not re.match(r"^(int|long|unsigned|size_t|Time::\w+|bool|double|enum )", prog.fields[t]) or "*" in prog.fields[t]:
            bad = "Time, copied byte by byte into the file, has the member %s of type %s" % (t, prog.fields[t])
    c.ob("resume", W(O + "Output"), bad is None, bad or "Time holds plain numbers (%d members)" % len(TF), "resume|time")
    I = new_interp(prog)
    stdmodel.enable(I, hook)
    st = State()
    st.store[("F", M, "Model::m_pGrid")] = ("null",)
    f = prog.fn(q)
    pert = atom(("pert",))
    s, r = run_function(I, f, M, {f.params[2][1]: ("b", "pert") if False else T}, st)
    c.functions |= set(I.fnlog)
    ev = [e[1] for e, cd, lp in flatten(trace_list(s.trace)) if e[0] == "do" and cd == T]
    bad = None
    if ev != ["Input", "Initialize", "InitializeExchangeBuffersFromActivePatches", "InitializeConnectivity"]:
        bad = "order %s" % ev
    for x in ("Model::m_time", "Model::m_timeStart"):
        for t in TF:
            v = I.load(s, ("F", ("F", M, x), t), "i")
            if v != atom(("file", t)):
                bad = bad or "%s of %s is %s" % (t, x, v)
    for x in ("Model::m_fGridFromRestartFile", "Model::m_fRestartPerturbation"):
        if I.load(s, ("F", M, x), "b") != T:
            bad = bad or "%s is not set" % x
    c.ob("resume", W(q), bad is None, "time, flags and order of the restart%s" % (": " + bad if bad else ""), "resume|order")
    # services used on the way to the first step accept that nothing was exchanged before
    for qn in ("FunctionTimer::ResetGroupTimeRecord", "FunctionTimer::GetAverageGroupTime", "FunctionTimer::GetTotalGroupTime", "FunctionTimer::GetNumberOfEntries"):
        if not prog.byqual.get(qn):
            continue
        f = prog.fn(qn)
        used = any(n[0] == "call" and n[2] == f.key for g in prog.byqual["Model::Go"] for n in walk(g.body))
        if not used:
            continue
        I = new_interp(prog)
        stdmodel.enable(I, lambda I, st, fr, n, key, qual, place, args: NotImplemented)
        st = State()
        st.store[("F", ("G", "FunctionTimer::m_mapGroupData"), stdmodel.KEYS)] = ("mkeys", ())
        st.store[("P", f.params[0][1])] = ("str", "Communicate")
        I.field_init = lambda p, t: ("mkeys", ()) if t == "keys" else None
        why = "throws"
        try:
            s, r = run_function(I, f, None, {f.params[0][1]: ("str", "Communicate")}, st)
        except stdmodel.EndIterator as e:
            s, why = None, str(e)
        c.functions |= set(I.fnlog)
        ok = s is not None and not [t for t in I.throws if t[0] == T]
        c.ob("resume", W(qn), ok, "called by Model::Go, when no such group was timed yet (restart)%s" % ("" if ok else ": " + why), "resume|" + qn)
    c.need("resume", 3)


def run(c):
    prog = Program(sources())
    files(c, prog)
    complete(c, prog)
    resume(c, prog)
    return c.finish("proof", "Writing and reading of the restart file are interpreted to (offset, length, container) lists and compared; an effect analysis over the call graph, with the branches on cold start and restart decided, finds every member of model, grid and patches that only a cold start sets.",
                    {"write": "every container of every patch is written once, in its own place, wherever it lives",
                     "read": "each container is read from where it was written, after what it depends on",
                     "complete": "a member set only on a cold start and read in the run is in a container of the file or set on restart",
                     "kept": "initialisation after reading leaves restored members alone",
                     "resume": "time and flags are restored and the run can start from them"})
