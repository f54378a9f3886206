"""Feature importance sums the gains of a feature's splits."""
from ..core import *
from .recmodel import *
from .c36 import role, tree_of, parse, Bad
from . import c36

NAME = "ComputeFeatureImportance"


def check(c):
    c.rules.append("structural induction over the tree: the recursive accumulation is summarised with its recursive calls abstract (they add the gains of the inner nodes of their subtree) and interpreted on small trees; "
                   "the forest-level function is interpreted as a fold over all trees, a sort and a normalisation; the listing keeps one line per feature in that order")
    fs = [f for f in c.find(NAME) if any("Forest" in p["t"] for p in f["params"])]
    if not fs:
        raise Missing(NAME + "(const Forest&)")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, mem=True)
    rec_ = {e.fid for e in I.events if e.kind == "call" and e.mode == "rec"}
    if len(rec_) != 1:
        return c.undecided("importance", where, "%d recursive functions" % len(rec_))
    R = c.db["fns"][rec_.pop()]
    kn = role(R, "TreeNode")
    ko = next((k for k, p in enumerate(R["params"]) if "map<" in p["t"]), None)
    if kn is None or ko is None:
        return c.undecided("importance", where, "parameters of %s" % R["name"])
    only = {"!pred": lambda g: "effect" if g["id"] == R["id"] else None}
    run(c, "step", lambda: step(c, R, only, kn, ko))
    run(c, "forest", lambda: forest(c, f, only, kn, ko))
    run(c, "listing", lambda: listing(c))


def run(c, name, f):
    try:
        n = f()
        if n:
            c.ok(name, "", "%d interpretations" % n)
    except Bad as b:
        c.viol(*b.args)
    except EV.Unknown as u:
        c.undecided(name, "", str(u))
    except (TypeError, IndexError, KeyError, AttributeError) as u:
        c.undecided(name, "", "value not understood: %r" % u)


def tree(r, depth=0):
    inner = r.random() < (.75 if depth == 0 else .4) and depth < 3
    d = {"has_left_child": inner, "has_right_child": inner, "has_split": inner, "score": F(r.randint(-3, 3)),
         "split": {"feature": ("str", r.choice("abc") if inner else ""), "gain": F(r.randint(1, 5)) * getattr(r, "scale", 1) if inner else F(0)}}
    for s in ("left_child", "right_child"):
        d[s] = tree(r, depth + 1) if inner else {"has_left_child": False, "has_right_child": False, "has_split": False, "split": {"feature": ("str", ""), "gain": F(0)}, "score": F(0)}
    return d


def add(t, m):
    if t["has_left_child"]:
        k = t["split"]["feature"]
        m[k] = m.get(k, F(0)) + t["split"]["gain"]
        add(t["left_child"], m)
        add(t["right_child"], m)


def tomap(m):
    v = EV.MapVal()
    for k, x in m.items():
        v.put(k, x)
    return v


def frommap(v):
    return {v.kv[h]: F(x) for h, x in v.items()}


def oldmap(k):
    """A map argument as it appears in an evaluated key."""
    if isinstance(k, EV.MapVal):
        return frommap(k)
    return {parse(x): F(v) for x, v in k}


def show_(m):
    return {k[1]: str(v) for k, v in sorted(m.items())}


def step(c, R, only, kn, ko):
    I = c.enter(R, mem=True, opaque=only)
    where = "src/%s:%s" % (R["file"], R["l"])
    oroot = ("*", mk("sym", "arg", ko)) if "*" in R["params"][ko]["t"] else ("arg", ko)
    nroot = ("*", mk("sym", "arg", kn)) if "*" in R["params"][kn]["t"] else ("arg", kn)
    out = I.memval(oroot)
    N = 1500 if c.tier == "thorough" else 200
    for it in range(N):
        r = random.Random("%s/s%d" % (c.seed, it))
        r.scale = (F(1), F(1, 100), F(1000))[it % 3]
        node = tree(r)
        old = {("str", x): F(r.randint(1, 9)) for x in r.sample("abcd", r.randint(0, 2))}
        env = EV.Env(it)
        env.steps = 10 ** 6
        roots = {EV._k(nroot, env, {}): node}

        def sem(env, k):
            if k[0] == "init":
                if k[1] == EV._k(oroot, env, {}):
                    return tomap(old)
                if k[1] in roots:
                    return node
                if isinstance(k[1], tuple) and k[1][0] == "*" and isinstance(k[1][1], tuple) and k[1][1][:1] == ("addr",):
                    return tree_of(k[1][1], node, roots)
            if k[0] == "out" and k[3] == ko:
                m = oldmap(k[5])
                add(tree_of(args_of(I, k, env)[kn], node, roots), m)
                return tomap(m)
            return None
        env.sem = sem
        got = EV.ev(out, env)
        if not isinstance(got, EV.MapVal):
            raise EV.Unknown("importance map")
        want = dict(old)
        add(node, want)
        if frommap(got) != want:
            raise Bad("step", "a tree turns the sums %s into %s; its inner nodes make it %s" % (show_(old), show_(frommap(got)), show_(want)), where)
    return N


def forest(c, f, only, kn, ko):
    I = c.enter(f, mem=True, opaque=only)
    where = "src/%s:%s" % (f["file"], f["l"])
    N = 1500 if c.tier == "thorough" else 200
    for it in range(N):
        r = random.Random("%s/f%d" % (c.seed, it))
        r.scale = (F(1), F(1, 100), F(1000))[it % 3]
        trees = [tree(r) for _ in range(r.randint(0, 3))]
        env = EV.Env(it)
        env.steps = 10 ** 6

        def sem(env, k):
            if k[0] == "init" and k[1] == ("arg", 0):
                return {"tree": trees}
            if k[0] == "out" and k[3] == ko:
                m = oldmap(k[5])
                add(tree_of(args_of(I, k, env)[kn], None, {("arg", 0): {"tree": trees}}), m)
                return tomap(m)
            return None
        env.sem = sem
        got = EV.ev(I.value, env)
        if not isinstance(got, list):
            raise EV.Unknown("importance list")
        got = [(p["first"], p["second"]) for p in got]
        m = {}
        for t in trees:
            add(t, m)
        top = max(m.values(), default=F(1))
        want = {k: v / top for k, v in m.items()}
        s = [(k[1], str(v)) for k, v in got]
        if len(got) != len(want) or dict(got) != want:
            raise Bad("forest", "the importance of a forest is listed as %s; the normalised sums of gains are %s" % (s, show_(want)), where)
        if any(got[i][1] < got[i + 1][1] for i in range(len(got) - 1)):
            raise Bad("order", "importances are not listed in non-increasing order: %s" % s, where)
    return N


def listing(c):
    """The text written to the importance file."""
    f = next(iter(c.find("FeatureImportanceFormatted", opt=True)), None)
    if f is None:
        return c.undecided("listing", "", "no formatting function")
    I = c.enter(f, mem=True)
    where = "src/%s:%s" % (f["file"], f["l"])
    N = 60
    for it in range(N):
        r = random.Random("%s/l%d" % (c.seed, it))
        rows = [(x, F(r.randint(1, 9))) for x in r.sample("abcde", r.randint(0, 4))]
        env = EV.Env(it)
        fl = Files(env)

        def sem(env, k):
            if k[0] == "init" and k[1] == ("arg", 0):
                return [{"first": ("str", a), "second": v} for a, v in rows]
            return fl.sem(k)
        env.sem = sem
        for e in trace([e for e in I.events if e.kind in ("stream", "sout") or e.kind == "write" and isinstance(e.val, Term) and e.val.op == "stream"], env):
            fl.feed(e)
        got = EV.text(EV.ev(I.value, env)).rstrip("\n").split("\n") if rows else []
        want = ["%s\t%s" % (a, v) for a, v in rows]
        if got != want:
            raise Bad("listing", "the importances %s are listed as %s" % (want, got), where)
    return N
