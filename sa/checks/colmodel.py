"""Column classes: constructor, Add, Finalize and element access chained into one interpretation."""
import contextlib

from ..core import *
from .recmodel import *

THIS = mk("addr", ("this",), ())
SYM = mk("sym", "row", 0)
NAN = EV.NANV
HUGE = F((2 - 2 ** -23) * 2 ** 127)


def default(ty):
    t = ty.replace("std::", "")
    if t.split("<")[0] in ("map", "unordered_map", "set", "unordered_set"):
        return EV.MapVal()
    if t.split("<")[0] == "vector":
        return []
    return {}


def value(x):
    return ("str", x) if isinstance(x, str) else x if isinstance(x, (float, tuple)) else F(x)


@contextlib.contextmanager
def calling(I, f):
    """Further calls in the state an interpretation of f ended in; the state they leave becomes that state."""
    I.frames.append(IN.Frame({"name": "<entry>", "id": "<entry>", "file": f.get("file", "")}))
    sv, I.st = I.st, I.state.fork(1)
    I.st.pc = 1
    try:
        yield
    finally:
        I.frames.pop()
        I.st = sv


class Col:
    """One of the column classes of the library, as a machine over evaluated objects."""

    def __init__(self, c, cls):
        self.c, self.cls = c, cls
        self.q = "gbdt::" + cls
        fs = [g for g in c.db["fns"].values() if g.get("ctor") and g.get("rec") == self.q and g.get("body") is not None
              and not g.get("implicit") and not (len(g["params"]) == 1 and cls in g["params"][0]["t"])]
        if len(fs) != 1:
            raise Missing("constructor of " + cls)
        self.ctor = fs[0]
        self.Ic = c.enter(self.ctor, mem=True)
        self.fns = {}
        self.readers = {}
        self.last = None
        self.rowless = set()

    def machine(self, m):
        r = self.fns.get(m)
        if r is None and isinstance(m, tuple):
            f = self.c.method(self.q, m[0])
            I = self.c.enter(f, mem=True)
            with calling(I, f):
                for x in m[1:]:
                    self.call(I, x)
                end = I.st
            I.st = I.state = end
            r = self.fns[m] = (f, I, I.memval(("this",)))
        elif r is None:
            f = self.c.method(self.q, m)
            I = self.c.enter(f, mem=True)
            r = self.fns[m] = (f, I, I.memval(("this",)))
        return r

    def call(self, I, m):
        """Another operation on the object, with the same interpretation: arguments are the data of the evaluation."""
        g = self.c.method(self.q, m)
        I.st.mem[("data",)] = mk("init", ("data",))
        I.call_fn(g, THIS, [mk("addr", ("data",), ()) for p in g["params"]])

    def where(self, m):
        f = self.ctor if m is None else self.machine(m)[0]
        return "src/%s:%s" % (f["file"], f["l"])

    def reader(self, name, after="Finalize"):
        """Value of a const method (one row or code argument) of the finalized object, as a term over the object before."""
        r = self.readers.get((name, after))
        if r is None:
            f, I, _ = self.machine(after)
            n0 = set(IN.LOOPS)
            with calling(I, f):
                v = self.read(I, THIS, name)
            r = self.readers[(name, after)] = (v, set(IN.LOOPS) - n0)
        return r

    def read(self, I, p, name):
        """Value of reader `name` of the object at address p: a const method, or "code" / "missing" of a row of the code column."""
        if name == "status":
            v = I.qread(p)
            return L.code(sel(v, (".", "status_")))
        if name in ("code", "missing"):
            a = I.call_fn(self.c.method(self.q, "col"), p, [])
            if name == "missing":
                return I.call_fn(self.c.method("gbdt::IntegerizedColumn::IntegerCol", "missing"), a, [SYM])
            for o, fs in I.over.items():
                fs = [I.db["fns"][x] for x in fs if x in I.db["fns"]]
                if fs and all(x["name"].endswith("::operator[]") for x in fs) and "IntegerCol" in " ".join(I.bases(fs[0]["rec"])):
                    return I.virtual({"fn": o}, {"id": o, "name": fs[0]["name"], "params": fs[0]["params"], "rt": fs[0]["rt"], "const": True}, a, [SYM])
            raise Missing("element access of a code column")
        g = self.c.method(self.q, name)
        v = I.call_fn(g, p, [SYM] * len(g["params"]))
        if "&" in g.get("rt", "") or v.op == "addr":
            v = I.qread(v)
        return v

    def env(self):
        env = EV.Env(0)
        env.steps = 10 ** 8
        env.limit = 10 ** 6
        env.cache = True
        return env

    def construct(self, name="c", n=None):
        env = self.env()

        def sem(env, k):
            if k == ("init", ("this",)):
                return {}
            if k[0] == "default":
                return default(k[1])
            if k[0] == "init" and k[1][0] == "arg" or k[0] == "sym" and k[1] == "arg":
                p = k[1][1] if k[0] == "init" else k[2]
                return ("str", name) if "string" in self.ctor["params"][p]["t"] else F(n)
            return self.leaf(k)
        env.sem = sem
        return EV.ev(self.Ic.memval(("this",)), env)

    def leaf(self, k):
        if k == ("sym", "huge_float"):
            return HUGE
        if k[0] == "code" and isinstance(k[1], tuple):
            return F(k[1][1]) if k[1][:1] == ("status",) else F(0) if not k[1] else None
        return None

    def run(self, m, this, data=None):
        """The object after method m with the given vector argument."""
        f, I, out = self.machine(m)
        env = self.env()
        env.sem = self.semof(f, this, data)
        return EV.ev(out, env)

    def semof(self, f, this, data, row=None):
        data = [value(x) for x in data] if data is not None else None

        def sem(env, k):
            if k == ("init", ("this",)):
                return this
            if k[0] == "sym" and k[1] == "arg" and data is not None:
                return ("ptr", k[2])
            if k[0] == "sym" and k[1] == "row":
                return row
            if k[0] == "init" and (k[1][0] in ("arg", "data") or k[1][0] == "*" and k[1][1] == ("ptr", 0)):
                return data
            if k[0] == "default":
                return default(k[1])
            return self.leaf(k)
        return sem

    def ask(self, name, this, row=None, after="Finalize", data=None):
        """Result of a reader on the object `this` will be after `after`."""
        v, own = self.reader(name, after)
        if self.last is None or self.last[0] is not this or self.last[1] != after or self.last[3] is not data:
            self.last = (this, after, self.env(), data)
        env = self.last[2]
        env.leaf.clear()
        for t in [t for t in env.closed if t not in self.rowless]:
            if SYM in subterms(t):
                del env.closed[t]
            else:
                self.rowless.add(t)
        for k in [k for k in env.folds if k[0] in own]:
            del env.folds[k]
        env.sem = self.semof(None, this, data, None if row is None else F(row))
        return EV.ev(v, env)


class Factory:
    """A factory function of Column: the object it returns, read in the same state."""

    def __init__(self, c, fn, col):
        self.col = col
        self.f = c.fn(fn)
        self.I = c.enter(self.f, mem=True)
        self.where = "src/%s:%s" % (self.f["file"], self.f["l"])
        self.terms = {}

    def ask(self, name, args, row=None):
        I = self.I
        v = self.terms.get(name)
        if v is None:
            fr = IN.Frame({"name": "<entry>", "id": "<entry>", "file": self.f.get("file", "")})
            I.frames.append(fr)
            sv, I.st = I.st, I.state.fork(1)
            try:
                v = self.terms[name] = self.col.read(I, I.value, name)
            finally:
                I.frames.pop()
                I.st = sv
        env = self.col.env()

        def sem(env, k):
            if k[0] == "sym" and k[1] == "row":
                return F(row)
            if k[0] == "sym" and k[1] == "arg":
                return args[k[2]]
            if k[0] == "init" and k[1][0] == "arg":
                return args[k[1][1]]
            if k[0] == "default":
                return default(k[1])
            return self.col.leaf(k)
        env.sem = sem
        return EV.ev(v, env)


def floats(r, n, k, nan=0.15):
    """n values of at most k kinds, some missing."""
    kinds = [F(r.randint(-6, 6), r.choice([1, 1, 2, 4])) for _ in range(k)] + [F(0)]
    return [NAN if r.random() < nan else r.choice(kinds) for _ in range(n)]


def pieces(r, xs):
    """The values in one to three vectors, in order (some possibly empty)."""
    a, b = sorted((r.randint(0, len(xs)), r.randint(0, len(xs))))
    return [p for p in r.choice([[xs], [xs[:a], xs[a:]], [xs[:a], xs[a:b], xs[b:]]])]


def short(xs):
    s = "[%s]" % ", ".join("missing" if isinstance(x, float) and x != x else repr(x) if isinstance(x, str) else str(x) for x in xs[:12])
    return s if len(xs) <= 12 else s[:-1] + ", ... (%d values)]" % len(xs)
