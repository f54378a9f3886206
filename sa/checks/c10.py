"""C10: absent objects and bad indices are reported, never dereferenced."""
import re

from ..core import *
from ..callgraph import callees, recursive
from .c26 import derived
from .recmodel import fnname

# classes of objects that may be absent
OBJECTS = ["gbdt::Column", "gbdt::LossFunc", "gbdt::DataStore", "gbdt::DataStorePy", "gbdt::ForestPy", "gbdt::Forest"]


def check(c):
    c.rules.append("interprocedural null analysis on guarded value graphs: results of functions that may return no object, members that may hold none and pointers handed in from Python must not reach a dereference "
                   "(or a parameter that is dereferenced) on a path where they may still be null; elements read at an index from Python must lie on a path that bounds it by the column's size as C++ converts it")
    N = Null(c)
    N.solve()
    N.report()
    indices(c, N)


def pointee(c, t):
    """Class of the objects a pointer-like type points to, if it is one that may be absent."""
    t = t.replace("const ", "").replace(" const", "").strip().rstrip("&").strip()
    if t.endswith("*"):
        t = t[:-1].strip()
    else:
        m = re.match(r"^(?:std::)?(?:unique_ptr|shared_ptr)<(.*?)(?:, .*)?>$", t)
        if not m:
            return None
        t = m.group(1).strip()
    t = t.replace("class ", "")
    for q in (t, "gbdt::" + t):
        if any(q == o or q in c.db["recs"] and derived(c, q, o) for o in OBJECTS):
            return q
    return None


class Null:
    def __init__(self, c):
        self.c = c
        self.I = {}
        self.fs = [f for f in c.db["fns"].values() if f.get("body") is not None and not f["file"].endswith("_test.cc") and not f.get("islambda") and not f.get("implicit") and
                   f["name"].split("::")[-1] != "ThrowException"]
        self.fs.sort(key=lambda g: (g["file"], g["l"], g["id"]))
        self.small = {}
        self.rec = recursive(c.db)
        self.over = {}
        for f in c.db["fns"].values():
            for o in f.get("over") or []:
                self.over.setdefault(o, set()).add(f["id"])

    def summary(self, f):
        if f["id"] not in self.I:
            self.I[f["id"]] = self.c.enter(f, mem=True, opaque={"!wrap": (), "!pred": lambda g: None if self.followed(g) else "effect"})
            self.given(f, self.I[f["id"]])
        return self.I[f["id"]]

    def given(self, f, I):
        """Function values that f gives back are entered where they are made."""
        for e in list(I.events):
            if e.kind != "return" or e.depth != 2 or not isinstance(getattr(e, "val", None), Term):
                continue
            for g, p in EV.guarded(e.val):
                h = self.c.db["fns"].get(p.a[0]) if p.op == "closure" else None
                pc = band(e.pc, g)
                if h is None or not pc or I.state is None:
                    continue
                I.st = I.state.fork(pc)
                I.st.pc = pc
                I.frames.append(IN.Frame({"name": "<entry>", "id": "<entry>", "file": f.get("file", "")}))
                try:
                    I.call_closure(p, [("v", mk("sym", "called", str(k))) for k, _ in enumerate(h["params"])])
                finally:
                    I.frames.pop()

    def followed(self, g):
        """Lambdas, the raising of exceptions, accessors and helpers are looked into."""
        if g.get("islambda") or g["name"].split("::")[-1] == "ThrowException":
            return True
        if g["id"] not in self.small:
            self.small[g["id"]] = g.get("body") is not None and not (g["params"] and g.get("rec") and not g.get("ctor") and derived(self.c, g["rec"], "gbdt::Column")) and not g.get("virt") and g["id"] not in self.rec and len(str(g["body"])) < (6000 if g.get("internal") else 2500)
        return self.small[g["id"]]

    # ---------------------------------------------------------------- sources
    def sources(self, f, p):
        """Why pointer term p may be null: [text]."""
        while p.op in ("own", "uptr", "conv") and isinstance(p.a[0], Term):
            p = p.a[0]
        if p.op == "null":
            return "nothing"
        if p.op == "ret":
            e = next((x for x in self.I[f["id"]].events if x.kind == "call" and x.ret is p), None)
            if e is not None and e.fid in self.nullable:
                return "the result of %s" % e.fn
            if e is not None and e.fid is None:
                return None
        m = self.member(f, p)
        if m in self.members:
            return "member %s" % m[1]
        k = self.param(p)
        if k is not None and (f["id"], k) in self.python:
            return "argument %d from Python" % (k + 1)
        return None

    @staticmethod
    def param(p):
        if p.op == "sym" and p.a[0] == "arg":
            return int(p.a[1])
        if p.op == "init" and p.a[0][0] == "arg":
            return int(p.a[0][1])
        return None

    def member(self, f, p):
        """(class, member) when p is a member of this."""
        if p.op == "sel" and p.a[1][0] == "." and p.a[0].op == "init":
            r = p.a[0].a[0]
            if r == ("this",) and f.get("rec"):
                return self.owner(f["rec"], p.a[1][1])
            k = int(r[1].a[1]) if r[0] == "*" and isinstance(r[1], Term) and r[1].op == "sym" and r[1].a[0] == "arg" else r[1] if r[0] == "arg" else None
            if k is not None and k < len(f["params"]):
                t = f["params"][k]["t"].replace("const ", "").replace("&", "").rstrip("* ").strip()
                return self.owner(t, p.a[1][1]) or self.owner("gbdt::" + t, p.a[1][1])
        return None

    def owner(self, cls, name):
        r = self.c.db["recs"].get(cls) or {}
        if any(x["name"] == name for x in r.get("fields") or []):
            return cls, name
        for b in r.get("bases") or []:
            o = self.owner(b if isinstance(b, str) else b["name"], name)
            if o:
                return o
        return None

    def open(self, pc, p):
        """Whether p may be null on pc: True, False or a reason for not knowing."""
        h = band(pc, bnot(IN.tobool(p)))
        if h == 0:
            return False
        h = bsubst(h, lambda t: NULL if t is p else None)
        if h == 0:
            return False
        r, why = EV.search(h)
        return True if r == "point" else False if r == "none" else str(why)

    # ---------------------------------------------------------------- fixpoint
    def solve(self):
        c = self.c
        self.python = self.entries()
        for f in self.fs:
            self.summary(f)
        # members that may hold nothing: those that a constructor leaves or sets null
        self.members = set()
        for cls, r in c.db["recs"].items():
            for x in r.get("fields") or []:
                if pointee(c, x["t"]) and self.left_null(cls, x):
                    self.members.add((cls, x["name"]))
        self.nullable = set()
        while True:
            before = len(self.nullable), len(self.members)
            for f in self.fs:
                if f["id"] not in self.nullable and pointee(c, f["rt"]) and self.returns_null(f):
                    self.nullable.add(f["id"])
                    for o in f.get("over") or []:
                        self.nullable.add(o)
                for e in self.I[f["id"]].events:
                    if e.kind == "write" and e.root == ("this",) and len(e.path) == 1 and e.val is not None and f.get("rec"):
                        m = self.owner(f["rec"], e.path[0][1]) if e.path[0][0] == "." else None
                        if m and m not in self.members and self.field_type(m) and self.value_null(f, e.val, e.pc):
                            self.members.add(m)
            if before == (len(self.nullable), len(self.members)):
                break
        # parameters that are dereferenced without a test
        self.req = {}
        while True:
            n = len(self.req)
            for f in self.fs:
                for e, p, g in self.uses(f):
                    k = self.param(p)
                    if k is not None and (f["id"], k) not in self.req and self.open(g, p) is True:
                        self.req[(f["id"], k)] = "src/%s:%s" % (e.file, e.line)
            if n == len(self.req):
                break

    def left_null(self, cls, x):
        """The member is null in an object of the class made by one of its constructors."""
        ctors = [f for f in self.fs if f.get("ctor") and f.get("rec") == cls]
        if not ctors:
            return True
        for f in ctors:
            v = sel(self.I[f["id"]].memval(("this",)), (".", x["name"]))
            for g, p in EV.guarded(v):
                if p.op in ("null",) or p.op in ("default", "pdefault") or p.op == "sel" and p.a[0].op == "init":
                    return True
        return False

    def field_type(self, m):
        return any(x["name"] == m[1] and pointee(self.c, x["t"]) for x in self.c.db["recs"][m[0]].get("fields") or [])

    def value_null(self, f, v, pc):
        for g, p in EV.guarded(v):
            if p.op not in ("addr",) and self.sources(f, p) and self.open(band(pc, g), p) is True:
                return True
        return False

    def returns_null(self, f):
        for e in self.I[f["id"]].events:
            if e.kind == "return" and getattr(e, "val", None) is not None and e.depth == 2:
                if self.value_null(f, e.val, e.pc):
                    return True
        return False

    def uses(self, f):
        """(event, pointer, guard) of every dereference in f, directly or by the function a pointer is handed to."""
        for e in self.I[f["id"]].events:
            if e.kind == "deref":
                for g, p in EV.guarded(e.ptr):
                    yield e, p, band(e.pc, g)
            elif e.kind == "call" and e.fid is not None:
                ids = {e.fid} | self.over.get(e.fid, set())
                for k, a in enumerate(e.args or ()):
                    if isinstance(a, Term) and any((i, k) in self.req for i in ids):
                        for g, p in EV.guarded(a):
                            yield e, p, band(e.pc, g)

    # ---------------------------------------------------------------- entries
    def bound(self):
        """Functions the native module offers to Python."""
        out = set()
        for f in self.fs:
            ps = [p["t"] for p in f["params"]]
            if any("pybind11::module" in p or "py::module" in p for p in ps) or f["file"].endswith("gbdt_py.cc"):
                for i in callees(f):
                    g = self.c.db["fns"].get(i)
                    if g and g["file"].startswith("python/") and g["id"] != f["id"]:
                        out.add(i)
        return out

    def entries(self):
        return {(i, k) for i in self.bound() for k, p in enumerate(self.c.db["fns"][i]["params"]) if pointee(self.c, p["t"])}

    # ---------------------------------------------------------------- results
    def report(self):
        c = self.c
        n = 0
        for f in self.fs:
            done = set()
            for e, p, g in self.uses(f):
                if p.op == "addr" or g == 0:
                    continue
                why = self.sources(f, p)
                if not why:
                    continue
                n += 1
                o = self.open(g, p)
                key = "absent:%s:%s" % (f["name"].split("::", 1)[-1], why.split("::")[-1].replace(" ", "-"))
                at = "src/%s:%s" % (e.file, e.line)
                if (key, o is False) in done:
                    continue
                done.add((key, o is False))
                if o is True:
                    to = "is dereferenced" if e.kind == "deref" else "is handed to %s, which dereferences it," % e.fn
                    c.viol(key, "%s may be absent and %s without a test in %s" % (why, to, f["name"]), at)
                elif o is False:
                    c.ok(key, at)
                else:
                    c.undecided(key, at, o)
        c.ok("uses of objects that may be absent", "", "%d uses in %d functions; %d functions may return none: %s; members: %s" % (
            n, len(self.fs), len(self.nullable), ", ".join(sorted({c.db["fns"][i]["name"] for i in self.nullable if i in c.db["fns"]}))[:400], ", ".join(sorted("%s::%s" % m for m in self.members))[:300]))


INTEGER = re.compile(r"^(const )?(unsigned )?(int|long|short|long long|uint|size_t|ssize_t)( &)?$")


def indices(c, N):
    n = 0
    for i in sorted(N.bound()):
        f = c.db["fns"][i]
        ks = [k for k, p in enumerate(f["params"]) if INTEGER.match(p["t"])]
        if not ks or i not in N.I:
            continue
        I = N.I[i]
        for e in I.events:
            if e.kind != "call" or e.fid is None:
                continue
            g = c.db["fns"].get(e.fid)
            if g is None or not g.get("rec") or not derived(c, g["rec"], "gbdt::Column"):
                continue
            for a in e.args or ():
                if not isinstance(a, Term) or not any(mentions(a, lambda t, k=k: N.param(t) == k) for k in ks):
                    continue
                n += 1
                key = "index:%s" % f["name"].split("::", 1)[-1]
                at = "src/%s:%s" % (e.file, e.line)
                r = outside(e, a, N, ks)
                if r is None:
                    c.ok(key, at)
                elif r[0] == "bad":
                    c.viol(key, "%s reads element %s of a column of %s rows" % (f["name"], r[1], r[2]), at)
                else:
                    c.undecided(key, at, r[1])
    c.ok("indices from Python", "", "%d uses" % n)


def outside(e, a, N, ks):
    """An index and a size for which the element read is not one of the column."""
    for size in (0, 1, 3):
        for i in (-2, -1, 0, 1, 2, 3, 4, 7):
            env = EV.Env("%s/%s" % (size, i))

            def sem(env, k):
                if k[0] == "ret" and fnname(k) == "size":
                    return Fraction(size)
                if k[0] == "sym" and k[1] == "arg" or k[0] == "init" and k[1][0] == "arg":
                    if int(k[2] if k[0] == "sym" else k[1][1]) in ks:
                        return Fraction(i)
                if k[0] in ("sel", "init"):
                    return ("thecolumn",) if k[0] == "sel" else None
                return None
            env.sem = sem
            try:
                if EV.evg(e.pc, env, {}):
                    x = EV.num_(EV.ev(a, env))
                    if not 0 <= x < size:
                        return ("bad", x if x < 2 ** 31 else i, size)
            except EV.Unknown as u:
                return ("?", str(u))
    return None
