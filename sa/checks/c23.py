"""A warm start continues exactly from the base forest."""
from ..core import *
from .trainmodel import *
from .c22 import run


def check(c):
    c.rules.append("TrainGBDT is summarised with scoring, fitting and losses abstract and interpreted with small base forests: the first gradients are computed from the base forest's prediction, its multi-node trees are in the result "
                   "unchanged, its single-node trees are folded into the constant tree; write effects below the base forest must be absent")
    try:
        T = Train(c)
        run(c, "start", T.where, lambda: start(c, T))
        unmodified(c, T)
    except EV.Unknown as u:
        c.undecided("training", "", str(u))


def start(c, T):
    I = T.I
    N = 900 if c.tier == "thorough" else 150
    out = I.memval(T.froot)
    for it in range(N):
        W = T.world("%s/w%d" % (c.seed, it), base=True, n=it % 3)
        env = W.env
        single = [t for t in W.base if not t["has_left_child"]]
        multi = [t for t in W.base if t["has_left_child"]]
        d = "base forest %s" % [scores_of(t) for t in W.base]
        for e in trace(T.grads, env):
            got = EV.ev(e.args[T.kgf], env)
            if not isinstance(got, list):
                raise EV.Unknown("running scores")
            if [F(x) for x in got] != W.predict(W.base):
                raise Bad("start", "training starts from scores %s; the base forest predicts %s (%s)" % ([str(x) for x in got], [str(x) for x in W.predict(W.base)], d), loc(e))
            break
        got = EV.ev(sel(out, (".", "tree")), env)
        if not isinstance(got, list) or not got:
            raise EV.Unknown("trees")
        g = [canon(cleared(t)) for t in got]
        rest = list(g[1:])
        for t in multi:
            w = canon(cleared(t))
            if w not in rest:
                raise Bad("kept", "the base tree %s is not in the result %s (%s)" % (scores_of(t), [scores_of(x) for x in got], d), T.where)
            rest.remove(w)
        if len(rest) > W.n:
            raise Bad("kept", "the result has %d trees for %d base trees with several nodes and %d iterations (%s)" % (len(got), len(multi), W.n, d), T.where)
        if W.n == 0:
            s = sum((t["score"] for t in single), F(0))
            if g[0] != canon(cleared({**node0(), "score": s})):
                raise Bad("constant", "the constant tree starts as %s; the single-node trees of the base forest sum up to %s (%s)" % (scores_of(got[0]), s, d), T.where)
    return N


def unmodified(c, T):
    I = T.I
    ws = [e for e in I.events if e.kind == "write" and e.root == T.broot]
    for e in ws:
        c.viol("modified", "the base forest is modified", loc(e))
    if not ws:
        c.ok("modified", T.where, "%d writes examined" % len([e for e in I.events if e.kind == "write"]))
    # nobody is handed the base forest for modification
    for f in c.db["fns"].values():
        for p in f.get("params") or []:
            pass
    ps = [p for p in T.f["params"] if "Forest" in p["t"]]
    c.decide(any("const" in p["t"] for p in ps), "const", "the base forest parameter is modifiable", T.where)
