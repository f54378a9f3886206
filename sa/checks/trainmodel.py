"""TrainGBDT extracted with scoring, fitting, loading and loss functions left abstract, and its interpretation
on small trainings: calls behave as specified (their own properties are decided by other checks)."""
from ..core import *
from .. import callgraph as CG
from .recmodel import *
from .c36 import role, tree_of, Bad, number, keys, unhk

PURE = ("CheckConfig", "GetGroupOrDie", "num_rows", "CurrentTimeInString", "MetaInfo", "DebugString")
EFFECT = ("FitTreeToGradients", "LoadFeatures", "Init", "ComputeFunctionalGradientsAndHessians")


def node0():
    return {"has_left_child": False, "has_right_child": False, "has_split": False, "score": F(0),
            "split": {"feature": ("str", ""), "gain": F(0), "has_cat_split": False, "has_float_split": False, "id": F(0),
                      "cat_split": {"category": [], "internal_categorical_index": []}, "float_split": {"threshold": F(0), "missing_to_right_child": False}}}


def rtree(r, depth=0, single=None):
    inner = (r.random() < .6 if single is None else not single) if depth == 0 else r.random() < .4 and depth < 3
    t = node0()
    t.update({"has_left_child": inner, "has_right_child": inner, "score": F(r.randint(-4, 4))})
    if inner or r.random() < .4:       # a leaf may still carry the split it was not divided by
        t["has_split"] = True
        s = t["split"]
        s["feature"], s["gain"] = ("str", r.choice("abc")), F(r.randint(1, 3))
        if r.random() < .5:
            s["has_cat_split"] = True
            k = r.sample(range(5), r.randint(1, 3))
            s["cat_split"] = {"internal_categorical_index": [F(x) for x in k], "category": [("str", "c%d" % x) for x in k]}
        else:
            s["has_float_split"] = True
            s["float_split"] = {"threshold": F(r.randint(-2, 2)), "missing_to_right_child": r.random() < .5}
    if inner:
        t["left_child"], t["right_child"] = rtree(r, depth + 1), rtree(r, depth + 1)
    return t


def route(t, row, tag):
    """Score of the leaf a row reaches."""
    while t["has_left_child"]:
        t = t["left_child" if random.Random("%s/%s/%s" % (tag, row, t["split"]["id"])).random() < .5 else "right_child"]
    return t["score"]


def shrunk(t, s):
    t = dict(t)
    t["score"] = t["score"] * s
    for k in ("left_child", "right_child"):
        if k in t:
            t[k] = shrunk(t[k], s)
    return t


def cleared(t):
    t = dict(t)
    if not t["has_left_child"]:
        t["has_split"], t["split"] = False, {**node0()["split"], "id": t["split"]["id"]}
    elif t["split"]["has_cat_split"]:
        t["split"] = {**t["split"], "cat_split": {**t["split"]["cat_split"], "internal_categorical_index": []}}
    for k in ("left_child", "right_child"):
        if t["has_left_child"] and k in t:
            t[k] = cleared(t[k])
    return t


def canon(t):
    """Comparable form of a tree: structure, leaf scores and splits."""
    s = t["split"]
    sp = ()
    if t["has_split"]:
        sp = (s["feature"], s["gain"], s["has_cat_split"], tuple(s["cat_split"]["category"]) if s["has_cat_split"] else (),
              tuple(s["cat_split"]["internal_categorical_index"]) if s["has_cat_split"] else (), s["has_float_split"],
              tuple(sorted(s["float_split"].items())) if s["has_float_split"] else ())
    if not t["has_left_child"]:
        return ("leaf", F(t["score"]) if not EV.isnanv(t["score"]) else "nan", sp)
    return ("node", sp, canon(t["left_child"]), canon(t["right_child"]))


def scores_of(t):
    if not t["has_left_child"]:
        return "%s" % t["score"]
    return "(%s | %s)" % (scores_of(t["left_child"]), scores_of(t["right_child"]))


class Train:
    def __init__(self, c, pure=()):
        self.c = c
        f = self.f = c.fn("TrainGBDT")
        self.where = "src/%s:%s" % (f["file"], f["l"])
        self.rec = CG.recursive(c.db, f["id"])
        big = max(len(g["params"]) for g in c.find("ComputeTreeScores::AddTreeScores"))

        def pred(g):
            n = g["name"].split("::")[-1]
            if g.get("rec", "").endswith("StopWatch"):
                return "pure"
            if g["id"] in self.rec and any("TreeNode" in p["t"] for p in g["params"]):
                return "effect"
            if n == "AddTreeScores" and len(g["params"]) == big or g.get("ctor") and g.get("rec", "").endswith("ComputeTreeScores"):
                return "effect"
            if n in EFFECT:
                return "effect"
            if n in PURE:
                return "pure"
            return None
        I = self.I = c.enter(f, mem=True, opaque={"!pred": pred})
        self.kcfg, self.kf, self.kbase = role(f, "Config"), None, None
        for k, p in enumerate(f["params"]):
            if "Forest" in p["t"]:
                if "const" in p["t"]:
                    self.kbase = k
                else:
                    self.kf = k
        if None in (self.kcfg, self.kf, self.kbase):
            raise Missing("parameters of TrainGBDT")
        self.kstore = role(f, "DataStore")
        fl = [k for k, p in enumerate(f["params"]) if "function<float" in p["t"] or "FloatVector" in p["t"]]
        self.kw, self.ky = (fl + [None, None])[:2]
        calls = [e for e in I.events if e.kind == "call"]
        self.grads = [e for e in calls if e.fn.split("::")[-1] == "ComputeFunctionalGradientsAndHessians"]
        self.fits = [e for e in calls if e.fn.split("::")[-1] == "FitTreeToGradients"]
        self.adds = [e for e in calls if e.fn.split("::")[-1] == "AddTreeScores"]
        self.recs = {}
        for e in calls:
            if e.fid in self.rec:
                g = c.db["fns"][e.fid]
                kt = role(g, "TreeNode")
                ks = [k for k, p in enumerate(g["params"]) if p["t"].replace("const ", "").strip() in ("float", "double")]
                self.recs[IN.sname(g["name"]).split("::")[-1]] = (g, kt, ks[0] if len(ks) == 1 and len(g["params"]) == 2 else None)
        if not self.grads or not self.fits:
            raise EV.Unknown("training loop")
        ga = c.db["fns"][self.adds[0].fid] if self.adds else None
        self.kat, self.kas = (role(ga, "TreeNode"), role(ga, "vector<double>")) if ga else (None, None)
        self.kac = next((k for k, p in enumerate(ga["params"]) if p["t"].replace("const ", "").strip() == "double"), None) if ga else None
        gl = c.db["fns"].get(self.grads[0].fid) or next((g for g in c.db["fns"].values() if g["name"].endswith("::ComputeFunctionalGradientsAndHessians")), None)
        ps = gl["params"] if gl else []
        self.kgf = next((k for k, p in enumerate(ps) if "vector<double>" in p["t"]), 0)
        self.kgc = next((k for k, p in enumerate(ps) if p["t"].replace(" ", "") == "double*"), 1)
        self.kgg = next((k for k, p in enumerate(ps) if "GradientData" in p["t"]), 2)
        self.froot = ("*", mk("sym", "arg", self.kf))
        self.broot = ("*", mk("sym", "arg", self.kbase))

    def world(self, seed, base=None, n=None, nan=None):
        """One interpretation: a World with its env."""
        return World(self, seed, base, n, nan)


class World:
    def __init__(self, T, seed, base, n, nan):
        r = random.Random(seed)
        self.T = T
        self.n = r.randint(0, 3) if n is None else n
        self.nr = r.randint(1, 2)
        self.shrink = r.choice([F(1), F(1, 2), F(1, 4), F(2)])
        ids = [0]
        self.trees = [rtree(r) for _ in range(self.n)]
        self.base = None
        if base is None:
            base = r.random() < .6
        if base:
            self.base = [rtree(r) for _ in range(r.randint(0, 3))]
        for t in self.trees + (self.base or []):
            number(t, ids)
        self.const = [F(r.randint(-3, 3)) for _ in range(self.n)]
        if nan is not None and self.n:
            self.const[r.randrange(self.n)] = nan
        self.tag = "%s" % seed
        env = self.env = EV.Env(seed)
        env.steps = 2 * 10 ** 6
        env.sem = self.sem

    def predict(self, trees, const=F(0)):
        return [sum((route(t, x, self.tag) for t in trees), F(0)) + const for x in range(self.nr)]

    def iteration(self, key):
        return int(key[-1][-1] if key[0] == "ret" else key[4][-1]) if (key[-1] if key[0] == "ret" else key[4]) else 0

    def sem(self, env, k):
        T = self.T
        if k[0] == "init":
            if k[1] == EV._k(T.froot, env, {}):
                return {"tree": [], "meta_info": ("str", "")}
            if k[1] == EV._k(T.broot, env, {}):
                return {"tree": self.base or [], "meta_info": ("str", "")}
            if k[1] == ("arg", T.kcfg):
                return {"num_trees": F(self.n), "shrinkage": self.shrink}
        if k[0] == "sym" and k[1:] == ("arg", T.kbase) and self.base is None:
            return ("null",)
        if k[0] == "truth":
            return True
        if k[0] == "pdefault" and k[1] == "TreeNode":
            return node0()
        if k[0] == "pdefault" and k[1] == "Split":
            return node0()["split"]
        if k[0] == "code":
            return F(0)
        if k[0] == "ret":
            n = fnname(k)
            if n == "num_rows":
                return F(self.nr)
            if n == "FitTreeToGradients":
                return self.trees[self.iteration(k)]
        if k[0] == "out":
            n = fnname(k)
            if n == "AddTreeScores" and k[3] == T.kas:
                a = args_of(T.I, k, env)
                t = self.tree(a[T.kat])
                cst = EV.num_(a[T.kac]) if T.kac is not None else F(0)
                return [x + y + cst for x, y in zip(k[5], self.predict([t]))]
            if n == "ComputeFunctionalGradientsAndHessians":
                if k[3] == T.kgc:
                    return self.const[self.iteration(k)]
                if k[3] == T.kgg:
                    return EV.Leaf(("gradients", self.iteration(k)))
            if n == "LoadFeatures":
                return EV.Leaf(("loaded", k[3]))
            if n in T.recs and k[3] == T.recs[n][1]:
                old = self.unkey(k[5])
                g, kt, ks = T.recs[n]
                if ks is not None:
                    return shrunk(old, EV.num_(args_of(T.I, k, env)[ks]))
                if len(g["params"]) == 1:
                    return cleared(old)
        return None

    def unkey(self, x):
        """A tree value from its hashed form."""
        if isinstance(x, dict):
            return x
        if isinstance(x, tuple) and x and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) for y in x) and ("score" in [y[0] for y in x] or "gain" in [y[0] for y in x] or
                                                                                                                              "category" in [y[0] for y in x] or "threshold" in [y[0] for y in x]):
            return {a: (b if a == "feature" else self.unkey(b)) for a, b in x}
        if isinstance(x, tuple) and not (x and x[0] == "str"):
            return [self.unkey(y) for y in x]
        return F(x) if isinstance(x, int) and not isinstance(x, bool) else x

    def tree(self, a):
        if isinstance(a, dict):
            return a
        env = self.env
        if isinstance(a, tuple) and a and a[0] == "addr":
            if a[1] == EV._k(self.T.broot, env, {}) and a[2]:
                v = {"tree": self.base}
                for s in a[2]:
                    v = v[s[1]] if s[0] == "." else v[int(s[1])]
                return v
        raise EV.Unknown("tree %s" % (str(a)[:80],))
