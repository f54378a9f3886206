"""Loss classes: constructor, Init and gradient computation chained into one interpretation."""
from ..core import *
from .recmodel import *

# parameters of the two virtual functions, by the interface LossFunc declares
INIT = ["num_rows", "w", "y", "group"]
COMP = ["f", "c", "grads", "progress"]


def vroot(f, k):
    t = f["params"][k]["t"]
    return ("*", mk("sym", "arg", k)) if "*" in t else ("arg", k)


class Loss:
    def __init__(self, c, cls, opaque, ctor_args):
        """ctor_args: parameter type -> value (evaluation domain)."""
        self.c, self.cls = c, cls
        self.opaque = {"Subsampling::DivideSamples": "effect", "Subsampling::CreateAllSamples": "effect", **opaque}
        self.ctor = self.find_ctor(cls)
        self.init = c.method("gbdt::" + cls, "Init")
        self.comp = c.method("gbdt::" + cls, "ComputeFunctionalGradientsAndHessians")
        if len(self.init["params"]) != 4 or len(self.comp["params"]) != 4:
            raise Missing("interface of LossFunc")
        self.where = "src/%s:%s" % (self.comp["file"], self.comp["l"])
        self.whereI = "src/%s:%s" % (self.init["file"], self.init["l"])
        self.Ic = c.enter(self.ctor, mem=True, opaque=self.opaque)
        self.thisc = self.Ic.memval(("this",))
        self.Ii = c.enter(self.init, mem=True, opaque=self.opaque)
        self.thisi, self.ri = self.Ii.memval(("this",)), self.Ii.value
        self.Ig = c.enter(self.comp, mem=True, opaque=self.opaque)
        self.out = {n: self.Ig.memval(vroot(self.comp, k)) for k, n in enumerate(COMP)}
        self.ctor_args = ctor_args

    def find_ctor(self, cls):
        fs = [g for g in self.c.db["fns"].values() if g.get("ctor") and g.get("rec", "").split("::")[-1] == cls and g.get("body") is not None
              and not g.get("implicit") and not (len(g["params"]) == 1 and cls in g["params"][0]["t"])]
        if len(fs) != 1:
            raise Missing("constructor of %s" % cls)
        return fs[0]

    def construct(self, env):
        def sem(env, k):
            if k[0] == "default" or k == ("init", ("this",)):
                return {}
            if k[0] == "sym" and k[1] == "arg":
                return self.ctor_args(self.ctor["params"][k[2]], ("v",))
            if k[0] == "init" and k[1][0] == "arg":
                return self.ctor_args(self.ctor["params"][k[1][1]], ("m",))
            return None
        env.sem = sem
        return EV.ev(self.thisc, env)

    def initialise(self, env, this, args, sem2):
        """args: num_rows, w, y, group (address value or null)."""
        f = self.init

        def sem(env, k):
            if k == ("init", ("this",)):
                return this
            if k[0] == "sym" and k[1] == "arg":
                return args[INIT[k[2]]]
            if k[0] == "init" and k[1][0] == "arg":
                return args[INIT[k[1][1]]]
            if k[0] == "default":
                return {}
            return sem2(env, k, self.Ii)
        env.sem = sem
        code = EV.num_(EV.ev(L.code(self.ri), env, want="int"))
        return EV.ev(self.thisi, env), code

    def compute(self, env, this, f, c0, grads, progress, sem2):
        def sem(env, k):
            if k == ("init", ("this",)):
                return this
            if k[0] == "init" and k[1] == EV._k(vroot(self.comp, 0), env, {}):
                return list(f)
            if k[0] == "init" and k[1] == EV._k(vroot(self.comp, 1), env, {}):
                return c0
            if k[0] == "init" and k[1] == EV._k(vroot(self.comp, 2), env, {}):
                return [dict(g) for g in grads]
            if k[0] == "sym" and k[1] == "arg" and k[2] == 3:
                return progress
            if k == ("truth", ("sym", "arg", 3)):
                return progress != ("null",)
            if k[0] == "default":
                return {}
            return sem2(env, k, self.Ig)
        env.sem = sem
        return sem


class Groups:
    """The class Group: construction, size, rows, pairs."""
    CLS = "gbdt::Group"

    def __init__(self, c):
        self.c = c
        fs = [g for g in c.db["fns"].values() if g.get("ctor") and g.get("rec") == self.CLS and g.get("body") is not None and not g.get("implicit")
              and len(g["params"]) == 2]
        if len(fs) != 1:
            raise Missing("constructor of Group")
        self.ctor = fs[0]
        self.kr = next((k for k, p in enumerate(self.ctor["params"]) if "vector" in p["t"]), None)
        if self.kr is None:
            raise Missing("rows of a Group")
        self.where = "src/%s:%s" % (self.ctor["file"], self.ctor["l"])
        self.Ic = c.enter(self.ctor, mem=True)
        self.value = self.Ic.memval(("this",))
        self.fsample = c.method(self.CLS, "SamplePair")
        self.Is = c.enter(self.fsample, mem=True)
        self.draws = [e for e in self.Is.events if e.kind == "draw"]
        self.whereS = "src/%s:%s" % (self.fsample["file"], self.fsample["l"])
        self.ask = {}

    def build(self, rows, y, env):
        def sem(env, k):
            if k[0] == "default" or k == ("init", ("this",)):
                return {}
            if k[0] == "icall" and k[1] == ("fun", "y"):
                i = k[2][0]
                if not 0 <= i < len(y):
                    raise EV.Stuck("target of row %s" % i)
                return y[int(i)]
            if k[0] in ("sym", "init"):
                q = k[2] if k[0] == "sym" else k[1][1] if k[1][0] == "arg" else None
                if q == self.kr:
                    return [F(x) for x in rows]
                if q is not None:
                    return ("fun", "y")
            return None
        env.sem = sem
        return EV.ev(self.value, env)

    def method(self, g, name, *args, y=None):
        """Evaluates a const method of a group value (plain dict)."""
        I, t = self.term(name, len(args))
        env = EV.Env(0)
        env.steps = 10 ** 5

        def sem(env, k):
            if k == ("init", ("this",)):
                return g
            if k[0] == "sym" and k[1] == "arg":
                return args[k[2]]
            if k[0] == "icall" and k[1] == ("fun", "y") and y is not None:
                return y[int(k[2][0])]
            return None
        env.sem = sem
        return EV.ev(t, env)

    def term(self, name, n):
        r = self.ask.get(name)
        if r is None:
            f = self.c.method(self.CLS, name)
            I = self.c.enter(f, mem=True)
            v = I.value
            r = self.ask[name] = (I, I.qread(v) if v.op in ("addr",) else v)
        return r

    def rows(self, g):
        n = int(EV.num_(self.method(g, "size")))
        return [int(self.method(g, "operator[]", F(i))) for i in range(n)]

    def npairs(self, g):
        return int(EV.num_(self.method(g, "num_pairs")))

    def sample(self, g, v, it=0):
        """The pair returned when the draws have the given values (of the first draw) and its range."""
        env = EV.Env(it)
        env.steps = 10 ** 5

        def sem(env, k):
            if k == ("init", ("this",)):
                return g
            if k[0] == "draw":
                return F(v)
            return None
        env.sem = sem
        return EV.ev(self.Is.value, env)

    def range(self, g):
        """Range of the (single) draw of SamplePair, None if it is not a uniform integer."""
        if len(self.draws) != 1:
            raise EV.Unknown("%d draws per pair" % len(self.draws))
        d = self.draws[0].dist
        if d is None or d.op != "dist" or "uniform_int" not in d.a[0] or len(d.a[1]) != 2:
            return None
        env = EV.Env(0)
        env.steps = 10 ** 5
        env.sem = lambda env, k: g if k == ("init", ("this",)) else None
        return [int(EV.num_(EV.ev(x, env, want="int"))) for x in d.a[1]]


def truepairs(rows, y):
    """Positions (i, j) with a strictly larger target first."""
    return {(i, j) for i in range(len(rows)) for j in range(len(rows)) if y[rows[i]] > y[rows[j]]}
