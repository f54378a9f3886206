"""Pointwise gradients use each sample's own target, score and weight."""
from ..core import *
from .lossmodel import *
from .c22 import run
from .c36 import Bad


def check(c):
    c.rules.append("the constructor, Init and ComputeFunctionalGradientsAndHessians of Pointwise are summarised (tasks inlined, loops as folds) and chained; interpreted on small data sets "
                   "with an arbitrary loss function the written gradients must be the loss derivatives at each sample's own target and score plus one common constant, and the constant "
                   "must be the Newton iterate (weighted totals of all samples) reached after a bounded number of steps from zero")
    try:
        S = Loss(c, "Pointwise", {}, lambda p, k: ("fun", "loss") if "function" in p["t"] or "Func" in p["t"] else None)
        run(c, "gradients", S.where, lambda: gradients(c, S))
    except EV.Unknown as u:
        c.undecided("pointwise", "", str(u))
    bounded(c, S)


def lossval(tag, y, f):
    """An arbitrary loss: (loss, gradient, curvature), or the squared loss."""
    if tag is None:
        return (y - f) * (y - f) / 2, y - f, F(1)
    r = random.Random("%s/%s/%s" % (tag, y, f))
    return F(r.randint(0, 3)), F(r.randint(-2, 2)), F(r.randint(0, 2))


def divide(r, n):
    """Some division of n samples into consecutive slices."""
    cuts = sorted(r.randint(0, n) for _ in range(r.randint(0, 2)))
    b = [0] + cuts + [n]
    return [{"first": F(x), "second": F(y)} for x, y in zip(b, b[1:])]


def gradients(c, S):
    N = 800 if c.tier == "thorough" else 100
    got = 0
    why = None
    for it in range(N):
        r = random.Random("%s/p%d" % (c.seed, it))
        n = r.randint(0, 4)
        W = [F(r.choice([0, 1, 1, 2, 3])) for _ in range(n)]
        Y = [F(r.randint(-2, 2)) for _ in range(n)]
        fv = [F(r.randint(-2, 2)) for _ in range(n)]
        tag = None if it % 3 == 0 else it
        d = "targets %s, scores %s, weights %s" % ([int(x) for x in Y], [int(x) for x in fv], [int(x) for x in W])
        nold = r.choice([0, n, n, n + 1])
        old = [{"g": F(r.randint(5, 9)), "h": F(r.randint(5, 9))} for _ in range(nold)]
        calls = []

        def prim(env, k, I):
            if k[0] == "icall":
                fn = k[1][1] if isinstance(k[1], tuple) and k[1][0] == "fun" else None
                if fn in ("w", "y"):
                    i = int(k[2][0])
                    if i < 0 or i >= n:
                        raise Bad("gradients:range", "%s of sample %d is used although there are %d samples" % (fn, i, n), S.where)
                    return (W if fn == "w" else Y)[i]
                if fn == "loss":
                    x = lossval(tag, *[F(a) for a in k[2]])
                    calls.append(k[2])
                    return {str(j): v for j, v in enumerate(x)}
            if k[0] == "ret" and fnname(k) == "DivideSamples":
                a = k[2]
                if len(a) == 2 and not isinstance(a[0], (list, tuple)):
                    return divide(random.Random("%s/d" % it), int(a[0]))
            return None
        env = EV.Env(it)
        env.steps = 4 * 10 ** 5
        try:
            this = S.construct(env)
            env = EV.Env(it)
            env.steps = 4 * 10 ** 5
            this, code = S.initialise(env, this, {"num_rows": F(n), "w": ("fun", "w"), "y": ("fun", "y"), "group": ("null",)}, prim)
            if code != 0:
                raise Bad("gradients:init", "Init fails on %d samples" % n, S.whereI)
            env = EV.Env(it)
            env.steps = 2 * 10 ** 6
            S.compute(env, this, fv, F(r.randint(3, 5)), old, ("null",), prim)
            cc = EV.num_(EV.ev(S.out["c"], env, want="float"))
            gg = EV.ev(S.out["grads"], env)
        except EV.Unknown as u:
            why = u
            continue
        if not isinstance(gg, list) or any(not isinstance(x, dict) for x in gg):
            raise EV.Unknown("gradients")
        # the Newton iterates
        cs = [F(0)]
        for _ in range(40):
            G = sum((w * lossval(tag, y, f + cs[-1])[1] for w, y, f in zip(W, Y, fv)), F(0))
            H = sum((w * lossval(tag, y, f + cs[-1])[2] for w, y, f in zip(W, Y, fv)), F(0))
            cs.append(cs[-1] + (G / H if H != 0 else 0))
        ks = [k for k in range(1, len(cs)) if cs[k] == cc]
        if not ks:
            raise Bad("constant", "the fitted constant is %s, the Newton iterates are %s, ... (%s)" % (cc, ", ".join(str(x) for x in cs[:4]), d), S.where)
        if len(gg) != n:
            raise Bad("gradients", "%d gradients are left for %d samples" % (len(gg), n), S.where)
        ok = False
        for k in {x for k in ks for x in (k - 1, k)}:
            want = [lossval(tag, y, f + cs[k])[1:] for y, f in zip(Y, fv)]
            ok = ok or all(F(g["g"]) == a and F(g["h"]) == b for g, (a, b) in zip(gg, want))
        if not ok:
            raise Bad("gradients", "gradients are %s, the loss derivatives are %s (%s)" % (
                [(str(g["g"]), str(g["h"])) for g in gg], [(str(a), str(b)) for a, b in want], d), S.where)
        got += 1
    if got < N // 2:
        raise EV.Unknown(why or "no interpretation")
    return got


def bounded(c, S):
    """Every loop that evaluates the constant runs a bounded number of times."""
    seen = set()
    for e in S.Ig.events:
        if e.kind != "icall":
            continue
        for l in e.loops:
            seen.add(l)
    for l in sorted(seen):
        LP = IN.LOOPS[l]
        w = "src/%s:%s" % LP.site
        if LP.bound is not None and LP.bound.op != "trip":
            c.ok("bounded:%s" % l, w)
            continue
        # the continuation condition must fail once the iteration counter is large enough
        if LP.cond is None:
            c.undecided("bounded:%s" % l, w, "no condition")
        elif any(bsubst(band(LP.cond, bnot(LP.early)) if LP.early else LP.cond, lambda t: later(LP, t, i)) == 0 for i in (50, 1000, 10 ** 6)):
            c.ok("bounded:%s" % l, w)
        else:
            c.viol("bounded:%s" % l, "the loop that fits the constant has no bound on its number of steps", w)


def later(LP, t, i):
    """Value of a loop variable in iteration i > 0, where it does not depend on the data."""
    if t is LP.idx:
        return num(i)
    for x, m in LP.mu.items():
        if t is m and LP.next[x].op in ("num", "b") and not mentions(LP.next[x], lambda y: y.op == "mu"):
            return LP.next[x]
    return None
