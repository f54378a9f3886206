"""Boosting bookkeeping matches the forest that is returned."""
from ..core import *
from .trainmodel import *


def check(c):
    c.rules.append("TrainGBDT is summarised as a fold over the iterations (scoring, fitting and the loss function abstract, behaving as specified) and interpreted on small trainings: at every call of the loss function the "
                   "running scores equal the prediction of the forest built so far, and the returned forest consists of the constant tree, the shrunk trees and the multi-node base trees; "
                   "the recursive shrinkage is decided by structural induction, and so is the scoring of one tree plus constant")
    try:
        T = Train(c)
        run(c, "bookkeeping", T.where, lambda: book(c, T))
        fit(c, T)
        shrinkage(c, T)
    except EV.Unknown as u:
        c.undecided("training", "", str(u))
    # what the abstract scoring of a tree is assumed to do
    from . import c36
    c36.step(c)
    c36.cover(c)


def run(c, name, where, f):
    try:
        n = f()
        if n:
            c.ok(name, where, "%d interpretations" % n)
    except Bad as b:
        c.viol(*b.args)
    except EV.Unknown as u:
        c.undecided(name, where, str(u))
    except (TypeError, IndexError, KeyError, AttributeError, ValueError) as u:
        c.undecided(name, where, "value not understood: %r" % u)


def book(c, T):
    I = T.I
    N = 900 if c.tier == "thorough" else 150
    out = I.memval(T.froot)
    for it in range(N):
        W = T.world("%s/b%d" % (c.seed, it))
        env = W.env
        single = [t for t in W.base or [] if not t["has_left_child"]]
        multi = [t for t in W.base or [] if t["has_left_child"]]
        d = "%d iterations, learning rate %s, constants %s%s" % (W.n, W.shrink, [str(x) for x in W.const], "" if W.base is None else ", base forest %s" % [scores_of(t) for t in W.base])
        done = 0
        for e in trace(T.grads, env):
            i = int(env.dyn[IN.LOOPS[e.loops[-1]].idx]) if e.loops else 0
            got = EV.ev(e.args[T.kgf], env)
            if not isinstance(got, list):
                raise EV.Unknown("running scores")
            sofar = W.predict((W.base or []) + [shrunk(t, W.shrink) for t in W.trees[:i]], sum(W.const[:i], F(0)))
            if [F(x) for x in got] != sofar:
                raise Bad("scores", "in iteration %d the gradients are computed from scores %s; the forest built so far predicts %s (%s)" % (i, [str(x) for x in got], [str(x) for x in sofar], d), loc(e))
            done += 1
        if done != W.n:
            raise Bad("iterations", "%d iterations are done instead of %d" % (done, W.n), T.where)
        if EV.num_(EV.ev(L.code(I.value), env, want="int")) != 0:
            raise Bad("success", "training fails although every step succeeds (%s)" % d, T.where)
        got = EV.ev(sel(out, (".", "tree")), env)
        if not isinstance(got, list) or not got:
            raise EV.Unknown("trees")
        want = [cleared({**node0(), "score": sum((t["score"] for t in single), F(0)) + sum(W.const, F(0))})]
        want += [cleared(t) for t in multi] + [cleared(shrunk(t, W.shrink)) for t in W.trees]
        g, w = [canon(cleared(t)) for t in got], [canon(t) for t in want]
        if g[0] != w[0]:
            raise Bad("constant", "the constant tree of the returned forest is %s, the constants sum up to %s (%s)" % (scores_of(got[0]), scores_of(want[0]), d), T.where)
        if sorted(g, key=repr) != sorted(w, key=repr):
            raise Bad("forest", "the returned forest has trees %s, expected %s (%s)" % ([scores_of(t) for t in got], [scores_of(t) for t in want], d), T.where)
    return N


def fit(c, T):
    """Each tree is fitted to the gradients of its own iteration with the training weights, features and configuration."""
    I = T.I
    g = T.c.db["fns"][T.fits[0].fid]
    kg, kw = role(g, "GradientData"), role(g, "function")
    kfe, kc = role(g, "Column"), role(g, "Config")
    for e in T.fits:
        if kc is not None:
            c.decide(e.args[kc] is argval(T.f, T.kcfg), "fit:config", "trees are fitted with configuration %s" % show(e.args[kc])[:100], loc(e))
        if kw is not None and T.kw is not None:
            c.decide(e.args[kw] is argval(T.f, T.kw), "fit:weights", "trees are fitted with weights %s" % show(e.args[kw])[:100], loc(e))
    for e in T.grads:
        pass

    def body():
        n = 0
        for it in range(30):
            W = T.world("%s/g%d" % (c.seed, it), n=it % 4)
            for e in trace(T.fits, W.env):
                i = int(W.env.dyn[IN.LOOPS[e.loops[-1]].idx]) if e.loops else 0
                got = EV.ev(e.args[kg], W.env)
                if got != ("gradients", i):
                    if isinstance(got, tuple) and got[:1] == ("gradients",) or isinstance(got, list):
                        raise Bad("fit:gradients", "the tree of iteration %d is fitted to %s" % (i, "the gradients of iteration %s" % got[1] if isinstance(got, tuple) else got), loc(e))
                    raise EV.Unknown("gradients %s" % (str(got)[:80],))
                got = EV.ev(e.args[kfe], W.env)
                if not (isinstance(got, tuple) and got[:1] == ("loaded",)):
                    raise EV.Unknown("features %s" % (str(got)[:80],))
                n += 1
        return n
    run(c, "fit:gradients", T.where, body)


def shrinkage(c, T):
    """The recursive scaling multiplies every leaf score by the factor once and changes nothing else."""
    fs = [x for x in T.recs.values() if x[2] is not None]
    if not fs:
        return c.undecided("shrinkage", T.where, "no recursive scaling")
    for g, kt, ks in fs:
        where = "src/%s:%s" % (g["file"], g["l"])
        run(c, "shrinkage", where, lambda: rstep(c, g, kt, ks, where))


def rstep(c, g, kt, ks, where):
    I = c.enter(g, mem=True, opaque={"!pred": lambda h: "effect" if h["id"] == g["id"] else None})
    root = ("*", mk("sym", "arg", kt)) if "*" in g["params"][kt]["t"] else ("arg", kt)
    out = I.memval(root)
    short = IN.sname(g["name"]).split("::")[-1]
    N = 200
    for it in range(N):
        r = random.Random("%s/sh%d" % (c.seed, it))
        node = rtree(r)
        number(node, [0])
        s = r.choice([F(1, 2), F(2), F(1, 4), F(0), F(1)])
        env = EV.Env(it)
        env.steps = 10 ** 6
        W = World.__new__(World)

        def sem(env, k):
            if k[0] == "init" and k[1] == EV._k(root, env, {}):
                return node
            if k[0] == "sym" and ks is not None and k[1:] == ("arg", ks):
                return s
            if k[0] == "pdefault" and k[1] in ("TreeNode", "Split"):
                return node0() if k[1] == "TreeNode" else node0()["split"]
            if k[0] == "sel" and k[2] in ("left_child", "right_child"):
                return node0()
            if k[0] == "out" and fnname(k) == short and k[3] == kt:
                old = World.unkey(W, k[5])
                return shrunk(old, EV.num_(args_of(I, k, env)[ks])) if ks is not None else cleared(old)
            return None
        env.sem = sem
        got = EV.ev(out, env)
        if not isinstance(got, dict):
            raise EV.Unknown("tree")
        want = shrunk(node, s) if ks is not None else cleared(node)
        if canon(got) != canon(want):
            if ks is not None:
                raise Bad("shrinkage", "scaling %s by %s gives %s" % (scores_of(node), s, scores_of(got)), where)
            raise Bad("cleared", "%s becomes %s, expected %s" % (canon(node), canon(got), canon(want)), where)
    return N
