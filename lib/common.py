"""Shared reporting: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
from prog import AnalysisBroken, Program, sources, REPO


def loc(where):
    if where is None:
        return "?"
    if isinstance(where, str):
        return where
    return "%s:%s (%s)" % tuple(where[:3])


class Check(object):
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obs = {}             # rule -> [discharged, undecided, violated]
        self.samples = {}
        self.viol = []            # (key, message)
        self.und = []
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.expect = {}          # rule -> minimum number of instances that must be found

    def ob(self, rule, where, ok, what, key=None):
        """one obligation: ok True / False / None (undecided)."""
        c = self.obs.setdefault(rule, [0, 0, 0])
        if ok is True:
            c[0] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 3:
                s.append("%s: %s" % (loc(where), what))
        elif ok is None:
            c[1] += 1
            self.und.append("%s: %s: %s" % (rule, loc(where), what))
        else:
            c[2] += 1
            k = key or "%s|%s" % (rule, what)
            self.viol.append((k, rule, loc(where), what))
        return ok

    def need(self, rule, n=1):
        self.expect[rule] = n

    def finish(self, level="other", explanation="", rules=None, trusted=None, assumptions=None):
        for r, n in self.expect.items():
            got = sum(self.obs.get(r, [0, 0, 0]))
            if got < n and not self.viol:
                raise AnalysisBroken("rule %s matched %d instances, at least %d expected: anchors moved" % (r, got, n))
        known = load_known(self.pid)
        seen = set()
        new = []
        known_hit = []
        for k, rule, w, what in self.viol:
            if k in seen:
                continue
            seen.add(k)
            if k in known:
                known_hit.append((k, known[k]))
            else:
                new.append((k, rule, w, what))
        tot = sum(sum(v) for v in self.obs.values())
        dis = sum(v[0] for v in self.obs.values())
        cov = {
            "obligations": tot,
            "discharged": dis,
            "undecided": sum(v[1] for v in self.obs.values()),
            "per_rule": {r: {"obligations": sum(v), "discharged": v[0], "undecided": v[1], "violated": v[2]} for r, v in sorted(self.obs.items())},
            "samples": [{"rule": r, "instances": s} for r, s in sorted(self.samples.items())],
            "undecided_list": self.und[:60],
            "functions_analysed": sorted(self.functions)[:400],
            "functions_analysed_count": len(self.functions),
            "explanation": explanation,
            "rules": rules or {},
            "checker_cmd": "/verif/check.py %s --tier %s" % (self.pid, self.tier),
            "trusted_base": trusted or ["clang 18 front end (name, type and overload resolution)", "the abstract interpreter in /verif/lib"],
            "known_findings_matched": [k for k, _ in known_hit],
            "notes": self.notes,
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
              "coverage": cov, "assumptions": (assumptions or []) + self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        print("%s: %d obligations, %d discharged, %d undecided, %d known, %d new violations (%.1fs)" %
              (self.pid, tot, dis, cov["undecided"], len(known_hit), len(new), time.time() - self.t0))
        if os.environ.get("VERBOSE"):
            for u in self.und:
                print("  undecided:", u)
        if new:
            rd = os.path.join(HERE, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.txt" % self.pid)
            with open(path, "w") as f:
                for k, rule, w, what in new:
                    f.write("property %s\nrule %s\nat %s\n%s\nkey %s\n\n" % (self.pid, rule, w, what, k))
            for k, rule, w, what in new[:20]:
                print("  [%s] %s: %s" % (rule, w, what[:600]))
                if os.environ.get("VERBOSE"):
                    print("      key:", k)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    out = {}
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f)["findings"]:
                if e.get("property") == pid and e.get("key"):
                    out[e["key"]] = e["what"]
    return out
