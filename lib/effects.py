"""Which members a function may write or read, over the call graph, with branches on a few flags decided."""
from prog import walk

ACCESS = ("operator[]", "operator()", "at", "begin", "end", "back", "front", "GetPointer", "data", "operator*", "operator->")


def is_node(n):
    return isinstance(n, list) and n and isinstance(n[0], str) and len(n) > 1 and isinstance(n[1], int)


class Effects(object):
    def __init__(self, prog, decide=None):
        """decide(cond node) -> True, False or None: value of a branch condition in the scenario."""
        self.prog, self.decide = prog, decide or (lambda c: None)
        self.memo = {}

    # ---- one function
    def summary(self, fn):
        """-> (writes, reads, callees, news): sets of (field, line), callee keys."""
        if fn.key not in self.memo:
            self.w, self.r, self.c = set(), set(), set()
            if fn.kind == "ctor":
                for it in fn.inits:
                    if it[0] == "f" and it[2] is not None:
                        self.w.add((it[1], fn.line))
                    self.visit(it[2] if len(it) > 2 else None, False)
                    if it[0] != "f" and len(it) > 2 and is_node(it[2]) and it[2][0] == "ctor":
                        self.c.add(it[2][3])
            self.visit(fn.body, False)
            self.memo[fn.key] = (self.w, self.r, self.c)
        return self.memo[fn.key]

    def targets(self, key, virt):
        out = [key]
        if virt:
            out += self.prog.all_overriders(key)
        return out

    def visit(self, n, write):
        if not isinstance(n, list):
            return
        if not is_node(n):
            for x in n:
                self.visit(x, False)
            return
        k = n[0]
        if k == "if":
            d = self.decide(n[2])
            self.visit(n[2], False)
            if d is not False:
                self.visit(n[3], False)
            if d is not True and len(n) > 4:
                self.visit(n[4], False)
        elif k == "asg":
            self.visit(n[3], True)
            if n[2] != "=":
                self.visit(n[3], False)
            self.visit(n[4], False)
        elif k == "un" and n[2] in ("++pre", "--pre", "++post", "--post", "post++", "post--", "pre++", "pre--", "++", "--"):
            self.visit(n[3], True)
            self.visit(n[3], False)
        elif k == "mem":
            (self.w if write else self.r).add((n[3], n[1]))
            base = n[2]
            self.visit(base, write and not self.pointer(base))
        elif k == "idx":
            self.visit(n[2], write)
            self.visit(n[3], False)
        elif k == "mcall":
            self.c |= set(self.targets(n[2], str(n[6]) == "1"))
            q = n[3].split("::")[-1] if isinstance(n[3], str) else ""
            f = self.prog.fns.get(n[2])
            if q in ACCESS or q.startswith("operator ") or "DataStruct" in str(n[3]) and q.startswith("operator "):
                self.visit(n[4], write and not (self.pointer(n[4])))
            elif f is not None and not f.const and not f.static or f is None and q in ("push_back", "resize", "clear", "insert", "erase", "assign"):
                self.visit(n[4], not self.pointer(n[4]))
                self.visit(n[4], False)
            else:
                self.visit(n[4], False)
            self.args(f, n[5])
        elif k == "ocall":
            self.c.add(n[2])
            q = n[3].split("::")[-1] if isinstance(n[3], str) else ""
            f = self.prog.fns.get(n[2])
            a = n[4]
            if q in ("operator[]", "operator()", "operator*", "operator->"):
                self.visit(a[0], write)
                self.visit(a[1:], False)
            elif q in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator++", "operator--", "operator<<", "operator>>"):
                self.visit(a[0], True)
                if q != "operator=":
                    self.visit(a[0], False)
                self.visit(a[1:], False)
            else:
                self.visit(a, False)
        elif k == "call":
            f = None
            if isinstance(n[2], str):
                self.c.add(n[2])
                f = self.prog.fns.get(n[2])
            self.args(f, n[4] if len(n) > 4 and isinstance(n[4], list) else [])
            if is_node(n[3]):
                self.visit(n[3], False)
        elif k == "ctor":
            self.c.add(n[3])
            self.args(self.prog.fns.get(n[3]), n[4])
        elif k == "cast" or k == "un":
            for x in n[2:]:
                if isinstance(x, list):
                    self.visit(x, write)
        else:
            for x in n[2:]:
                if isinstance(x, list):
                    self.visit(x, False)

    def pointer(self, n):
        """the expression is a pointer to an object kept elsewhere."""
        if is_node(n) and n[0] == "mem":
            return n[4] == "p"
        if is_node(n) and n[0] == "var":
            return n[-1] == "p"
        if is_node(n) and n[0] in ("mcall", "call", "ocall"):
            return n[-1] == "p"
        return False

    def args(self, f, args):
        for i, a in enumerate(args or []):
            t = f.params[i][2] if f is not None and i < len(f.params) else None
            inner = a
            w = False
            if t is not None and not t.startswith("const ") and (t.rstrip().endswith("&") or t.rstrip().endswith("*")):
                w = True
            if t is None and is_node(a) and a[0] == "un" and a[2] == "&":
                w = True
            if w:
                self.visit(a, True)
            self.visit(a, False)

    # ---- closure
    def reach(self, roots):
        todo, seen = [r.key for r in roots], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            f = self.prog.fns.get(k)
            if f is None:
                continue
            seen.add(k)
            todo += list(self.summary(f)[2])
        return seen

    def sites(self, reach, which):
        out = {}
        for k in reach:
            f = self.prog.fns[k]
            for q, ln in self.summary(f)[which]:
                out.setdefault(q, set()).add((k, ln))
        return out
