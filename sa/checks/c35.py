"""Sampling: closed form of UniformSubsample and the arguments it gets from tree growing."""
from ..core import *


def check(c):
    c.rules.append("UniformSubsample's result is extracted as a filter over the index range 0..n-1: element i is kept iff that index's own draw (one draw per index, uniform on [0,1)) "
                   "is below the rate; the training code passes (number of rows, row rate) and (number of features, feature rate)")
    f = c.fn("Subsampling::UniformSubsample", 2)
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f)
    n, rate = argval(f, 0), argval(f, 1)
    draws = [e for e in I.events if e.kind == "draw"]
    c.decide(len(draws) == 1, "one draw", "%d draw sites decide about one index" % len(draws), where)
    if len(draws) == 1:
        e = draws[0]
        v = e.val
        if len(e.loops) != 1:
            c.undecided("draw per index", where, "the draw is not inside exactly one loop")
        else:
            idx = IN.LOOPS[e.loops[0]].idx
            L = IN.LOOPS[e.loops[0]]
            c.implies(inside(e.loops), e.pc, "draw unconditional", "an index is passed over without a draw", where)
            c.same(L.bound, n, "every index", "the number of indices visited", where, ints=[0, 1, 2, 3, 5, 8])
            if L.early == 0:
                c.ok("no early stop", where)
            else:
                c.viol("no early stop", "the loop over the indices is left early when %s, so later indices are never drawn" % bshow(L.early)[:400], where)
            want = mk("filterseq", mk("seq0"), n, abstract(idx, mk("pair", B(flt(v, rate)), idx)))
            c.same(I.value, want, "UniformSubsample", "the sampled index sequence", where,
                   ints=[0, 1, 2, 3, 5, 8], floats=[Fraction(x, 8) for x in range(9)])
            uniform(c, e, where)
    f = c.fn("Subsampling::CreateAllSamples", 1, opt=True)
    if f:
        I = c.enter(f)
        n = argval(f, 0)
        i = mk("idx", -7)
        ident = mk("mapseq", mk("seq0"), n, abstract(i, i))
        c.same(I.value, ident, "CreateAllSamples", "the list of all rows", "src/%s:%s" % (f["file"], f["l"]), ints=[0, 1, 2, 3, 5, 8])
    # arguments
    f = c.fn("FitTreeToGradients")
    I = c.enter(f, opaque={"UniformSubsample": "effect", "FindBestSplit": "effect", "Partition": "effect", "DivideSamples": "pure"})
    where = "src/%s:%s" % (f["file"], f["l"])
    cfg = next(argval(f, k) for k, p in enumerate(f["params"]) if "Config" in p["t"])
    rows = next(argval(f, k) for k, p in enumerate(f["params"]) if "GradientData" in p["t"])
    feats = next(argval(f, k) for k, p in enumerate(f["params"]) if "Column" in p["t"])
    calls = [e for e in I.events if e.kind == "call" and e.fn.endswith("UniformSubsample")]
    kinds = {"row": 0, "feature": 0}
    for e in calls:
        if not e.args:
            continue
        kind = "row" if mentions(e.args[0], lambda t: t is rows) else "feature" if mentions(e.args[0], lambda t: t is feats) else None
        if kind is None:
            c.undecided("subsample call", loc(e), show(e.args[0]))
            continue
        kinds[kind] += 1
        c.same(e.args[0], size(rows if kind == "row" else feats), "%s count:%d" % (kind, kinds[kind]), "the number of %ss sampled from" % kind, loc(e))
        c.same(e.args[1], sel(cfg, (".", "example_sampling_rate" if kind == "row" else "feature_sampling_rate"), "float"),
               "%s rate:%d" % (kind, kinds[kind]), "the rate used for sampling %ss" % kind, loc(e))
    for k in kinds:
        c.decide(kinds[k] >= 1, "%s sampling" % k, "no sampling of %ss happens in FitTreeToGradients" % k, where)
    c.counts["sampling_calls"] = len(calls)


def uniform(c, e, where):
    """The distribution drawn from is uniform on [0, 1)."""
    d = e.dist
    name = None
    if isinstance(d, Term) and d.op == "init" and d.a[0][0] == "g":
        name = d.a[0][1]
    g = c.db["globals"].get(name) if name else None
    if g is None or not g.get("init"):
        return c.undecided("uniform draw", where, "distribution %s" % (show(d) if isinstance(d, Term) else d))
    args = [a.get("v", a.get("e", {}).get("v") if isinstance(a.get("e"), dict) else None) for a in g["init"].get("args", [])]
    t = g.get("t", "")
    if "uniform_real" not in t:
        return c.undecided("uniform draw", where, t)
    vals = []
    for a in g["init"].get("args", []):
        x = a
        while isinstance(x, dict) and x.get("k") in ("cast", "mat"):
            x = x["e"]
        vals.append(x.get("v") if isinstance(x, dict) else None)
    vals = [float(v) for v in vals if v is not None]
    c.decide(vals in ([], [0.0], [0.0, 1.0]), "uniform draw", "the distribution is uniform on %s, not on [0, 1)" % vals, where)
