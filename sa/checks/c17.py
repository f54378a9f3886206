"""Split search: reported gain, guards and maximality of the proposal."""
from ..core import *
from . import splitmodel as SM


def check(c):
    c.rules.append("FindBestSplit is summarised as a fold over the entries of a histogram whose accessors stay uninterpreted; the summary (found?, gain, threshold / category list) is compared with "
                   "the definition of the best split -- max over prefixes (and both places for missing values) of E(left)+E(right)-E(node) subject to min hessian, min gain and tolerance -- under "
                   "interpretations of the accessors by finite histograms")
    x = SM.prepare(c)
    big = c.tier == "thorough"
    for string in (True, False):
        kind = "categorical" if string else "numeric"
        n = 0
        try:
            for m, found, gain, side, note in SM.run(c, x, string, 4000 if big else 400):
                n += 1
                cand = m.candidates()
                best = max((g for g, _ in cand), default=None)
                d = m.describe()
                if found and best is None:
                    c.viol(kind + ":guards", "a split of gain %s is proposed although no split point satisfies the minimum gain and minimum hessian (%s)" % (gain, d), x["where"])
                    break
                if not found and best is not None:
                    c.viol(kind + ":missed", "no split is proposed although one of gain %s is eligible (%s)" % (best, d), x["where"])
                    break
                if found and gain != best and not close(gain, best):
                    c.viol(kind + ":gain", "the proposed split reports gain %s; the largest eligible gain is %s (%s)" % (gain, best, d), x["where"])
                    break
                if not found and gain != 0:
                    c.viol(kind + ":untouched", "nothing is proposed but the result's gain is set to %s (%s)" % (gain, d), x["where"])
                    break
            else:
                c.ok(kind + ":best split", x["where"], "%d interpretations" % n)
        except SM.OutOfRange as o:
            c.viol(kind + ":range", "entry %s of a histogram without such an entry is read" % o, x["where"])
        except EV.Unknown as u:
            c.undecided(kind + ":best split", x["where"], str(u))
        c.counts[kind + "_interpretations"] = n
    # other kinds of columns have no split
    env = EV.Env(1)
    for ty in set(range(0, 6)) - set(x["types"]):
        env.sem = lambda env, k: Fraction(ty) if k[0] == "ret" and str(k[1]).endswith("Column::type") else None
        try:
            if EV.ev(x["found"], env, want="bool"):
                c.viol("other kinds", "a split is proposed for a column of kind %d" % ty, x["where"])
        except EV.Unknown as u:
            c.undecided("other kinds", x["where"], str(u))
    # the energy formula itself
    I = c.interp()
    g, h, lam = (mk("sym", n) for n in ("g", "h", "lambda"))
    for t in (g, h, lam):
        TYPE[t] = "double"
    v = c.on(I, "gbdt::GradientData", "Energy", rec({"g": g, "h": h}), [lam])
    s = add(h, lam)
    c.same(v, ite(feq(s, ZERO), ZERO, div(mul(g, g), s)), "energy", "the energy of a node", "src/loss_func/gradient_data.h")


def close(x, y):
    return abs(float(x) - float(y)) < 1e-12
