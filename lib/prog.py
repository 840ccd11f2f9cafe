"""Loads the typed program (clang AST, resolved under the project's own flags) from /repo's current tree."""
import glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TM_REPO", "/repo")
FLAGS = ["-std=c++11", "-I%s/src/base" % REPO, "-I%s/src/atm" % REPO, "-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF",
         "-DTEMPEST_LAPACK_FORTRAN_INTERFACE", "-fPIC",
         "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]
# directories /opt/vp/build.sh compiles
DIRS = ["src/base", "src/atm", "test/shallowwater_sphere", "test/nonhydro_sphere", "test/nonhydro_xz",
        "test/dcmip2016", "util/CFConverter", "util/ExtractSurface"]


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (anchor gone, code does not parse): exit code 3, neither pass nor violation."""


class Fn(object):
    __slots__ = ("key", "qual", "name", "file", "line", "end", "ret", "cls", "virtual", "static", "const",
                 "overrides", "kind", "params", "inits", "body", "lam")

    def __init__(self, d):
        for a in ("key", "qual", "name", "file", "line", "end", "ret", "kind", "params", "body"):
            setattr(self, a, d[a])
        self.cls = d.get("class")
        self.virtual = d.get("virtual", 0)
        self.lam = d.get("lambda", 0)
        self.static = d.get("static", 0)
        self.const = d.get("const", 0)
        self.overrides = d.get("overrides", [])
        self.inits = d.get("inits", [])

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.qual, self.file, self.line)


def _treehash():
    h = hashlib.sha1()
    h.update(" ".join(FLAGS).encode())
    for t in ("extract.cpp", "probe.cpp"):
        with open(os.path.join(HERE, "tool", t), "rb") as f:
            h.update(f.read())
    for d in ("src", "test", "util"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs[:] = sorted(x for x in dirs if x not in ("build", "depend"))
            for f in sorted(files):
                if f.endswith((".h", ".cpp")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class Program(object):
    def __init__(self, sources):
        """sources: list of paths relative to the repository root."""
        self.fns = {}        # key -> Fn
        self.byqual = {}     # qualified name -> [Fn]
        self.classes = {}
        self.fields = {}     # qual field -> type
        self.globals = {}
        self.enums = {}      # enumerator -> value
        self.enumdefs = {}
        self.sources = sources
        self._load(sources)

    def _load(self, sources):
        tool = os.path.join(HERE, "build", "extract")
        subprocess.check_call([os.path.join(HERE, "tool", "build.sh")])
        th = _treehash()
        cache = os.path.join(HERE, "build", "cache", th)
        os.makedirs(cache, exist_ok=True)
        # drop caches of other trees
        base = os.path.join(HERE, "build", "cache")
        olds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if d != th)
        for _, d in olds[:-int(os.environ.get("TM_CACHE", "3"))]:
            p = os.path.join(base, d)
            try:
                for f in os.listdir(p):
                    os.unlink(os.path.join(p, f))
                os.rmdir(p)
            except OSError:
                pass

        def one(src):
            out = os.path.join(cache, src.replace("/", "@") + ".json")
            if not os.path.exists(out):
                tmp = "%s.%d" % (out, os.getpid())
                r = subprocess.run([tool, REPO, tmp, os.path.join(REPO, src), "--"] + FLAGS,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode != 0 or not os.path.exists(tmp):
                    raise AnalysisBroken("cannot parse %s: %s" % (src, r.stderr.decode(errors="replace")[-800:]))
                os.rename(tmp, out)
            with open(out) as f:
                return f.read()
        with ThreadPoolExecutor(8) as ex:
            for src, text in zip(sources, ex.map(one, sources)):
                d = json.loads(text)
                for f in d["functions"]:
                    if f["key"] not in self.fns:
                        fn = Fn(f)
                        self.fns[fn.key] = fn
                        self.byqual.setdefault(fn.qual, []).append(fn)
                for c in d["classes"]:
                    if c["qual"] not in self.classes:
                        self.classes[c["qual"]] = c
                        for q, t, ln, ini in c["fields"]:
                            self.fields[q] = t
                for g in d["globals"]:
                    self.globals.setdefault(g["qual"], g)
                for e in d["enums"]:
                    self.enumdefs.setdefault(e["qual"], e)
                    for q, v in e["vals"]:
                        self.enums[q] = v
        # class hierarchy
        self.derived = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.derived.setdefault(b, []).append(c["qual"])
        self.overriders = {}
        for f in self.fns.values():
            for o in f.overrides:
                self.overriders.setdefault(o, []).append(f.key)

    # ---- queries
    def fn(self, qual, nparams=None, must=True):
        c = [f for f in self.byqual.get(qual, []) if nparams is None or len(f.params) == nparams]
        if len(c) == 1:
            return c[0]
        if not must:
            return c[0] if c else None
        raise AnalysisBroken("anchor %s (%s parameters): %d definitions found" % (qual, nparams, len(c)))

    def subclasses(self, cls, transitive=True):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, []):
                if d not in out:
                    out.append(d)
                    if transitive:
                        todo.append(d)
        return out

    def bases(self, cls):
        out = []
        c = self.classes.get(cls)
        if c:
            for b in c["bases"]:
                out.append(b)
                out += self.bases(b)
        return out

    def all_overriders(self, key):
        out, todo = [], [key]
        while todo:
            k = todo.pop()
            for d in self.overriders.get(k, []):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def resolve_virtual(self, key, cls):
        """final overrider of method `key` for dynamic class `cls`, or None."""
        chain = [cls] + self.bases(cls)
        cand = {key} | set(self.all_overriders(key))
        for c in chain:
            for f in cand:
                fn = self.fns.get(f)
                if fn is not None and fn.cls == c:
                    return fn
        return None

    def callers_index(self):
        idx = {}
        for f in self.fns.values():
            for n in walk(f.body):
                if n[0] in ("call", "ocall", "mcall") and n[2]:
                    idx.setdefault(n[2], []).append((f, n))
        return idx


def sources(*dirs):
    """the .cpp files each directory's Makefile compiles."""
    out = []
    for d in (dirs or DIRS):
        with open(os.path.join(REPO, d, "Makefile")) as f:
            words = set()
            for ln in f:
                words.update(ln.split("#")[0].replace("=", " ").replace("\\", " ").split())
        out += sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, d, "*.cpp"))
                      if os.path.basename(p) in words)
    return out


def walk(n):
    """every node (list whose first item is a kind string) below n, pre-order."""
    if isinstance(n, list):
        if n and isinstance(n[0], str) and len(n) > 1 and isinstance(n[1], int):
            yield n
        for x in n:
            if isinstance(x, list):
                for y in walk(x):
                    yield y
