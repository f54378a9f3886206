"""Invalid parameters: guard analysis of the training entry points."""
from ..core import *

TRAIN_OPAQUE = {"LoadFeatures": "effect", "FitTreeToGradients": "effect", "GetGroupOrDie": "pure", "AddTreeScores": "effect",
                "ComputeTreeScores": "effect", "Start": "pure", "End": "pure", "ElapsedTimeInMSecs": "pure",
                "MSecsToFormattedString": "pure", "CurrentTimeInString": "pure"}

POINTS = [Fraction(x) for x in (0, 1, -1, 2)] + [Fraction(1, 2), Fraction(1, 1000), Fraction(1001, 1000), Fraction(-1, 2), float("nan")]


def valid(cfg):
    def F(n, t):
        return sel(cfg, (".", n), t)
    g = band(ge0(sub(F("num_trees", "int"), ONE)), ge0(sub(F("num_leaves", "int"), ONE)))
    for r in ("example_sampling_rate", "feature_sampling_rate"):
        x = F(r, "float")
        g = band(g, flt(ZERO, x), fle(x, ONE))
    return g


def check(c):
    c.rules.append("the guards under which CheckConfig and TrainGBDT return code 0 / code 3 are extracted as boolean functions of the configuration and compared "
                   "with the documented ranges; every effect on the output forest or the loss function must have a guard disjoint from the rejected region")
    f = c.fn("CheckConfig", opt=True)
    if f:
        I = c.enter(f)
        cfg = argval(f, 0)
        want = valid(cfg)
        kw = dict(floats=POINTS, ints=[0, 1, 2], where="src/gbdt_algo/utils.cc")
        c.same(code_guard(I.value, 0), want, "CheckConfig:accepts", "configurations accepted by CheckConfig", **kw)
        c.same(code_guard(I.value, 3), bnot(want), "CheckConfig:rejects", "configurations CheckConfig rejects as INVALID_ARGUMENT", **kw)
    f = c.fn("TrainGBDT")
    I = c.enter(f, opaque=TRAIN_OPAQUE, mem=True)
    ps = [p["name"] for p in f["params"]]
    k = next(i for i, p in enumerate(f["params"]) if "Config" in p["t"])
    kf = next(i for i, p in enumerate(f["params"]) if "Forest" in p["t"] and not p["t"].startswith("const"))
    kl = next(i for i, p in enumerate(f["params"]) if "LossFunc" in p["t"])
    cfg = argval(f, k)
    want = valid(cfg)
    kw = dict(floats=POINTS, ints=[0, 1, 2], where="src/gbdt_algo/gbdt_algo.cc")
    bad = bnot(want)
    c.implies(bad, code_guard(I.value, 3), "TrainGBDT:rejects", "TrainGBDT returns something else than INVALID_ARGUMENT for a rejected configuration", **kw)
    n = 0
    for e in I.events:
        tgt = None
        if e.kind == "write" and e.root in (("*", mk("sym", "arg", kf)), ("*", mk("sym", "arg", kl))):
            tgt = "write to " + ps[kf if e.root[1] is mk("sym", "arg", kf) else kl]
        elif e.kind == "call" and getattr(e, "mode", "") == "effect" and any(x in (mk("sym", "arg", kf), mk("sym", "arg", kl)) for x in (e.this,) + tuple(e.args)):
            tgt = "call of " + e.fn
        if tgt is None:
            continue
        n += 1
        c.disjoint(e.pc, bad, "TrainGBDT:effect:%s:%s" % (e.fn if e.kind == "call" else "write", n), "%s happens although the configuration is rejected" % tgt,
                   where=loc(e), floats=POINTS, ints=[0, 1, 2])
    c.counts["effects_on_output"] = n
    # The entry points reach training only through TrainGBDT.
    for g in c.db["fns"].values():
        pass
