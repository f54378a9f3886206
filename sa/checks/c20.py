"""Node scores and split energies."""
from ..core import *
from . import splitmodel as SM
from . import treemodel as TM


def check(c):
    c.rules.append("every write of a tree node's score must equal G/(H+lambda), 0 when H+lambda is 0, with G, H the extracted weighted sums over exactly that node's samples (all sampled rows at the "
                   "root, the two halves returned by Partition at the children) and lambda the configured value; GradientData::Score/Energy equal their formulas; the gain reported by the split "
                   "search is the energy difference under the configured lambda")
    I = c.interp()
    g, h, lam = (mk("sym", n) for n in ("g", "h", "lambda"))
    for t in (g, h, lam):
        TYPE[t] = "double"
    obj = rec({"g": g, "h": h})
    s = add(h, lam)
    c.same(c.on(I, "gbdt::GradientData", "Energy", obj, [lam]), ite(feq(s, ZERO), ZERO, div(mul(g, g), s)), "energy", "the energy of a node", "src/loss_func/gradient_data.h")
    c.same(c.on(I, "gbdt::GradientData", "Score", obj, [lam]), ite(feq(s, ZERO), ZERO, div(g, s)), "score", "the score of a node", "src/loss_func/gradient_data.h")
    T = TM.Tree(c)
    lam = sel(T.cfg, (".", "l2_lambda"), "double")
    roots = [e.ret for e in T.rowsubs]
    seen = set()
    for e in T.scores:
        side = T.slice_of(e.path)
        if side == "root":
            if len(roots) != 1:
                c.undecided("score:root", loc(e), "%d row samples" % len(roots))
                continue
            sl = roots[0]
        else:
            ps = [p for p in T.parts if set(p.loops) <= set(e.loops)]
            if len(ps) != 1:
                c.undecided("score:" + side, loc(e), "%d partitions" % len(ps))
                continue
            sl = sel(ps[0].ret, (".", "first" if side == "left_child" else "second"))
        G, H = T.cut(T.total(sl, "g")), T.cut(T.total(sl, "h"))
        s = add(H, lam)
        seen.add(side)
        c.same(T.cut(e.val), ite(feq(s, ZERO), ZERO, div(G, s)), "score:" + side, "the score of a %s" % side, loc(e), ints=TM.INTS)
    for side in ("root", "left_child", "right_child"):
        if side not in seen:
            c.undecided("score:" + side, T.where, "no direct write of this score seen")
    x = SM.prepare(c)
    for string in (True, False):
        kind = "categorical" if string else "numeric"
        n = 0
        try:
            for m, found, gain, sd, note in SM.run(c, x, string, 1500 if c.tier == "thorough" else 150):
                n += 1
                if found:
                    want, _ = m.gain_of(sd & set(m.v))
                    if want != gain and abs(float(want) - float(gain)) > 1e-9:
                        c.viol(kind + ":energy", "the gain reported is %s; with the configured lambda the energies of the sides give %s (%s)" % (gain, want, m.describe()), x["where"])
                        break
            else:
                c.ok(kind + ":energy", x["where"], "%d interpretations" % n)
        except (EV.Unknown, SM.OutOfRange) as u:
            c.undecided(kind + ":energy", x["where"], str(u))
