"""Frame of a check: obligations, violations, known findings, evidence."""
import json, os, random, sys, time
from fractions import Fraction
from . import frontend
from .terms import *
from . import interp as IN
from . import evalterm as EV
from . import lib as L
from . import narrow

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("GBDT_EVIDENCE") or os.path.join(VERIF, "evidence")

# checks whose functions are also analysed for the widths of integers and sums
WIDTHS = ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C27", "C28", "C29", "C33", "C34",
          "C35", "C36", "C37", "C38", "C39")


class Missing(Exception):
    """A public anchor of the analysis does not exist."""


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.db = frontend.load()
        for n in self.db["enums"]:
            EV.SCALARS.update({n, n.replace("gbdt::", "")})
        IN.load_protos(self.db["repo"])
        self.obls = []          # (name, status, where, note)
        self.viols = []
        self.rules = []
        self.functions = set()
        self.counts = {}
        self.unmodelled = {}
        self.notes = []

    # ------------------------------------------------------------ functions
    def find(self, name, nparams=None, rec=None, opt=False, where=None):
        out = []
        for f in self.db["fns"].values():
            if f.get("body") is None or f.get("implicit"):
                continue
            n = IN.sname(f["name"])
            if n.startswith("gbdt::"):
                n = n[6:]
            if n == name and (nparams is None or len(f.get("params") or []) == nparams) and (where is None or where(f)):
                out.append(f)
        if not out and not opt:
            raise Missing("function %s%s" % (name, "" if nparams is None else "/%d" % nparams))
        return out

    def fn(self, name, nparams=None, **kw):
        r = self.find(name, nparams, **kw)
        return r[0] if r else None

    def method(self, rec, name, opt=False):
        """The function a call of method `name` on an object of class rec reaches."""
        todo = [rec]
        while todo:
            r = todo.pop(0)
            for f in self.db["fns"].values():
                if f.get("rec") == r and f.get("body") is not None and f["name"].split("::")[-1] == name:
                    return f
            todo += [b if isinstance(b, str) else b["name"] for b in (self.db["recs"].get(r) or {}).get("bases") or []]
        if not opt:
            raise Missing("method %s of class %s" % (name, rec))

    def interp(self, **kw):
        return IN.Interp(self.db, **kw)

    def enter(self, f, opaque=None, mem=False, this_type=None, args=None, this=None, pre=None, raw=False):
        I = self.interp(opaque=opaque, mem=mem, raw=raw)
        I.value, I.state = I.enter(f, this_type, args, this, pre)
        self.functions |= I.analysed
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        return I

    def on(self, I, cls, name, value, args=()):
        """Value of method `name` (of class cls) applied to an object with the given value."""
        f = self.method(cls, name)
        root = ("tmp", I.fresh("tmp"))
        I.roottype[root] = cls
        I.st.mem[root] = value
        fr = IN.Frame({"name": "<entry>", "id": "<entry>", "file": f.get("file", "")})
        I.frames.append(fr)
        try:
            pc, I.st.pc = I.st.pc, 1
            r = I.call_fn(f, I.addr(root), list(args))
            I.st.pc = pc
            return r
        finally:
            I.frames.pop()

    # ------------------------------------------------------------ obligations
    def ok(self, name, where="", note=""):
        self.obls.append((name, "discharged", where, note))

    def undecided(self, name, where="", note=""):
        self.obls.append((name, "undecided", where, note))

    def viol(self, key, msg, where="", path=None):
        if key in [v["key"] for v in self.viols]:
            return
        self.obls.append((key, "violated", where, msg))
        self.viols.append({"key": key, "message": msg, "where": where, "path": path or []})

    def decide(self, cond, name, msg, where="", path=None):
        if cond:
            self.ok(name, where)
        else:
            self.viol(name, msg, where, path)

    def same(self, got, want, name, what, where="", **kw):
        """Value-graph equality obligation. got/want: terms, or guards (ints)."""
        if isinstance(got, int):
            got = B(got)
        if isinstance(want, int):
            want = B(want)
        if got is want:
            self.ok(name, where)
            return True
        r, info = EV.compare(got, want, n=400 if self.tier == "thorough" else 40, seed=self.seed, **kw)
        if r == "same":
            self.ok(name, where, "equal on the finite domain")
            return True
        if r == "unknown":
            self.undecided(name, where, "value graph not in closed form (%s): %s" % (info, show(got)[:300]))
            return None
        env, x, y = info
        pt = {str(k)[:160]: str(v) for k, v in list(env.leaf.items())[:12]}
        self.viol(name, "%s: the code computes %s, expected %s; they differ, e.g. %s vs %s" % (what, show(got)[:700], show(want)[:400], x, y),
                  where, [pt])
        return False

    def implies(self, a, b, name, what, where="", **kw):
        """Obligation: guard a implies guard b."""
        return self.never(band(a, bnot(b)), name, what, where, **kw)

    def disjoint(self, a, b, name, what, where="", **kw):
        return self.never(band(a, b), name, what, where, **kw)

    def never(self, g, name, what, where="", path=None, **kw):
        """Obligation: guard g is unsatisfiable; violated when a point of the finite domain satisfies it."""
        if g == 0:
            self.ok(name, where)
            return True
        r, info = EV.search(g, seed=self.seed, **kw)
        if r == "none":
            self.ok(name, where, "no satisfying point in the finite domain")
            return True
        if r == "unknown":
            self.undecided(name, where, "guard not evaluable (%s): %s" % (info, bshow(g)[:300]))
            return None
        pt = {str(k)[:160]: str(v) for k, v in list(info.leaf.items())[:12]}
        self.viol(name, "%s; happens when %s" % (what, bshow(g)[:700]), where, (path or []) + [pt])
        return False

    # ------------------------------------------------------------ result
    def known(self):
        out = set()
        try:
            for l in open(os.path.join(VERIF, "known_findings.txt")):
                l = l.strip()
                if l.startswith("known: property=%s " % self.pid):
                    out.add(l.split("key=", 1)[1].split(" -- ")[0].strip())
        except OSError:
            pass
        return out

    def finish(self, level="other", explanation=""):
        if self.pid in WIDTHS:
            narrow.scan(self)
        known = self.known()
        new = [v for v in self.viols if v["key"] not in known]
        old = [v for v in self.viols if v["key"] in known]
        for v in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, v["key"], v["message"][:300]))
        os.makedirs(EVID, exist_ok=True)
        n = {"discharged": 0, "undecided": 0, "violated": 0}
        for o in self.obls:
            n[o[1]] += 1
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"explanation": explanation or "; ".join(self.rules),
                           "obligations": len(self.obls), "discharged": n["discharged"], "undecided": n["undecided"],
                           "violated": n["violated"],
                           "functions_analysed": len(self.functions),
                           "functions": sorted(self.name_of(f) for f in self.functions)[:200],
                           "rules": self.rules,
                           "obligation_list": [{"name": a, "status": b, "where": c, "note": d[:400]} for a, b, c, d in self.obls[:400]],
                           "unmodelled_library_calls": self.unmodelled, **self.counts},
              "assumptions": self.notes,
              "violations": [{"key": v["key"], "message": v["message"], "where": v["where"], "path": v["path"],
                              "known": v["key"] in known} for v in self.viols],
              "wall_s": round(time.time() - self.t0, 3)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            rp = os.path.join(EVID, self.pid + ".replay.txt")
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s\n  at %s\n  %s\n" % (v["key"], v["where"], v["message"]))
                    for p in v["path"]:
                        f.write("    %s\n" % (p,))
            for v in new:
                print("%s: %s [%s]" % (v["where"], v["message"][:1500], v["key"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations, %d discharged, %d undecided (%.1f s)" % (self.pid, len(self.obls), n["discharged"], n["undecided"], time.time() - self.t0))
        for a, b, c, d in self.obls:
            if b == "undecided":
                print("  undecided: %s %s %s" % (a, c, d[:200]))
        return 0

    def name_of(self, id):
        f = self.db["fns"].get(id)
        return f["name"] if f else id


def loc(e):
    return "src/%s:%s" % (e.file, e.line)


def eq_int(t, v):
    """Guard: integer term t equals v, distributing over conditionals."""
    if t.op == "ite":
        g, x, y = t.a
        return bor(band(g, eq_int(x, v)), band(bnot(g), eq_int(y, v)))
    return ieq(t, num(v))


def code_guard(v, n):
    """Guard under which a Status value v has code n."""
    return eq_int(L.code(v), n)


def inside(loops):
    """Guard of being in the body of the loops (inner loops refer to outer indices)."""
    g = 1
    for l in loops:
        g = band(g, IN.LOOPS[l].cond)
    return g


def argval(f, k, I=None):
    """The value passed for parameter k at entry."""
    p = f["params"][k]
    if p.get("ref"):
        t = mk("init", ("arg", k))
        return t
    s = mk("sym", "arg", k)
    return B(atom(s)) if IN.base_type(p["t"]) == "bool" else s
