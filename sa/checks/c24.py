"""A returned model is self-contained."""
from ..core import *
from .trainmodel import *
from .c22 import run, rstep
from . import treemodel as TM

NAMES = {"Column::name": "pure", "StringColumn::get_cat_string": "pure"}


def check(c):
    c.rules.append("every tree of the forest TrainGBDT returns with success has passed the clearing step, whose recursion is decided by structural induction (leaves lose their split, inner categorical splits their internal codes, "
                   "nothing else changes); every split stored in a node carries its feature's name and the names of all its categories; a non-finite constant leads to an error")
    try:
        T = Train(c)
        run(c, "returned", T.where, lambda: returned(c, T))
        run(c, "diverged", T.where, lambda: diverged(c, T))
        fs = [x for x in T.recs.values() if x[2] is None and len(x[0]["params"]) == 1]
        if not fs:
            c.undecided("cleared", T.where, "no recursive clearing")
        for g, kt, ks in fs:
            where = "src/%s:%s" % (g["file"], g["l"])
            run(c, "cleared", where, lambda: rstep(c, g, kt, None, where))
    except EV.Unknown as u:
        c.undecided("training", "", str(u))
    run(c, "named", "", lambda: named(c))


def returned(c, T):
    I = T.I
    out = I.memval(T.froot)
    N = 600 if c.tier == "thorough" else 120
    for it in range(N):
        W = T.world("%s/r%d" % (c.seed, it))
        got = EV.ev(sel(out, (".", "tree")), W.env)
        if not isinstance(got, list):
            raise EV.Unknown("trees")
        for i, t in enumerate(got):
            p = leftover(t)
            if p:
                raise Bad("returned", "tree %d of the returned forest %s (%d iterations, %d base trees)" % (i, p, W.n, len(W.base or [])), T.where)
    return N


def leftover(t):
    if not t["has_left_child"]:
        return "has a leaf that keeps a split" if t["has_split"] else None
    if t["split"]["has_cat_split"] and t["split"]["cat_split"]["internal_categorical_index"]:
        return "has a node that keeps internal category codes %s" % [int(x) for x in t["split"]["cat_split"]["internal_categorical_index"]]
    return leftover(t["left_child"]) or leftover(t["right_child"])


def diverged(c, T):
    I = T.I
    n = 0
    for it in range(60):
        bad = [float("nan"), float("inf"), float("-inf")][it % 3]
        W = T.world("%s/d%d" % (c.seed, it), n=1 + it % 3, nan=bad)
        if EV.num_(EV.ev(L.code(I.value), W.env, want="int")) == 0:
            raise Bad("diverged", "training reports success although the constants are %s" % [str(x) for x in W.const], T.where)
        n += 1
    return n


class NamedTree(TM.Tree):
    pass


def named(c):
    """Splits stored in nodes name their feature and all their categories."""
    sv = TM.OPAQUE
    try:
        TM.OPAQUE = {**sv, **NAMES}
        T = TM.Tree(c)
    finally:
        TM.OPAQUE = sv
    I = T.I
    f = c.fn("FindBestSplit")
    kfeat = TM.pos(f, "Column")
    ft = [k for k, p in enumerate(T.f["params"]) if "Column" in p["t"]][0]
    ws = [e for e in I.events if e.kind == "write" and e.path and e.path[-1] == (".", "split")]
    if not ws:
        raise EV.Unknown("no node gets a split")
    elsewhere = naming_elsewhere(c, I)
    N = 900 if c.tier == "thorough" else 120
    n = 0
    for it in range(N):
        r = random.Random("%s/n%d" % (c.seed, it))
        FS = r.sample(range(6), r.choice([1, 2, 3, 4]))
        G = [F(r.choice([0, 1, 2, 3])) for _ in range(6)]
        cat = [r.random() < .6 for _ in range(6)]
        codes = [[F(x) for x in r.sample(range(6), r.randint(1, 4))] for _ in range(6)]
        env = EV.Env(it)
        env.steps = 10 ** 6

        def feat(x):
            return isinstance(x, tuple) and len(x) == 2 and x[0] == "feat"

        def sem(env, key):
            if key[0] == "ret" and fnname(key) == "UniformSubsample":
                return [F(q) for q in FS]
            if key[0] == "sel" and key[2] == "[" and key[1] == ("init", ("arg", ft)):
                return ("feat", int(key[3]))
            if key[0] == "init" and key[1][0] == "*" and isinstance(key[1][1], tuple) and key[1][1][0] == "str":
                return key[1][1]                # a name returned by reference
            if key[0] == "ret" and fnname(key) == "name":
                return ("str", "f%d" % key[2][0][1]) if feat(key[2][0]) else None
            if key[0] == "ret" and fnname(key) == "get_cat_string":
                return ("str", "f%d:%d" % (key[2][0][1], key[2][1])) if feat(key[2][0]) else None
            if key[0] == "out" and fnname(key) == "FindBestSplit":
                x = next(q for q in T.finds if q.ret.a[2] == key[2])
                svd = dict(env.dyn)
                for l, v in zip(x.loops, key[4]):
                    env.dyn[IN.LOOPS[l].idx] = F(v)
                d = EV.ev(x.args[kfeat], env)
                env.dyn = svd
                if not feat(d):
                    raise EV.Unknown("searched feature")
                k = d[1]
                return {"gain": G[k], "fid": F(k), "feature": ("str", ""), "has_cat_split": cat[k], "has_float_split": not cat[k],
                        "cat_split": {"internal_categorical_index": codes[k] if cat[k] else [], "category": []},
                        "float_split": {"threshold": F(0), "missing_to_right_child": False}}
            return None
        env.sem = sem
        for w in ws:
            for l in w.loops:
                env.dyn[IN.LOOPS[l].idx] = F(0)
            g = EV.num_(EV.ev(sel(w.val, (".", "gain")), env, want="float"))
            if g <= 0:
                continue
            k = int(EV.num_(EV.ev(sel(w.val, (".", "fid")), env, want="int")))
            nm = EV.ev(sel(w.val, (".", "feature")), env)
            if nm != ("str", "f%d" % k):
                if elsewhere:
                    raise EV.Unknown("features are named by %s" % elsewhere)
                raise Bad("named:feature", "a node that splits on feature f%d names %s" % (k, nm[1] if isinstance(nm, tuple) and nm[0] == "str" else nm), loc(w))
            if cat[k]:
                cs = EV.ev(sel(sel(w.val, (".", "cat_split")), (".", "category")), env)
                want = sorted("f%d:%d" % (k, x) for x in codes[k])
                got = sorted(x[1] for x in cs) if isinstance(cs, list) and all(isinstance(x, tuple) and x[0] == "str" for x in cs) else None
                if got is None:
                    raise EV.Unknown("categories %s" % (str(cs)[:80],))
                if got != want:
                    if elsewhere:
                        raise EV.Unknown("categories are named by %s" % elsewhere)
                    raise Bad("named:categories", "a split that sends categories with codes %s to the left lists %s" % ([int(x) for x in codes[k]], got), loc(w))
            n += 1
    return n


def naming_elsewhere(c, I):
    """Functions that set names of splits but are not part of this summary."""
    out = []
    here = {c.fn("FitTreeToGradients")["id"]}
    stop = {f["id"] for n in ("FindBestSplit", "Partition") for f in c.find(n, opt=True)}
    todo = list(here)
    while todo:
        x = todo.pop()
        for y in CG.graph(c.db).get(x, ()):
            if y not in here and y not in stop:
                here.add(y)
                todo.append(y)
    for i in CG.reach(c.db, c.fn("TrainGBDT")["id"]) | {c.fn("TrainGBDT")["id"]}:
        if i in here:
            continue
        f = c.db["fns"][i]
        if mentions_call(f.get("body"), ("set_feature", "add_category", "mutable_category", "set_category", "mutable_feature")):
            out.append(f["name"])
    return out


def mentions_call(x, names):
    todo = [x]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "mcall" and str(x.get("name", "")).split("::")[-1] in names or str(x.get("m", "")) in names:
                return True
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return False
