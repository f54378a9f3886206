"""Work division: the ranges produced by DivideSamples, from their closed form."""
from ..core import *


def check(c):
    c.rules.append("the sequence of ranges returned by every DivideSamples overload is extracted in closed form over (n, k); it must consist of k consecutive ranges "
                   "from the start to the end of the input, sizes differing by at most one, for every (n, k) of the finite domain n in 0..40, k in -2..17")
    big = c.tier == "thorough"
    fs = c.find("Subsampling::DivideSamples", 2)
    for f in fs:
        where = "src/%s:%s" % (f["file"], f["l"])
        I = c.enter(f)
        slice_ = "VectorSlice" in f["params"][0]["t"]
        a0, a1 = argval(f, 0), argval(f, 1)
        name = "DivideSamples(%s)" % ("slice" if slice_ else "count")
        k_ = mk("sym", "k")
        TYPE[k_] = "int"
        e = sel(I.value, ("[", k_))
        if slice_:
            lo, hi = c.on(I, "VectorSlice", "begin", e), c.on(I, "VectorSlice", "end", e)
            lo0, hi0 = c.on(I, "VectorSlice", "begin", a0), c.on(I, "VectorSlice", "end", a0)
        else:
            lo, hi = sel(e, (".", "first")), sel(e, (".", "second"))
            lo0, hi0 = ZERO, a0
        count = size(I.value)
        tried = 0
        bad = None
        unk = None
        for n in range(0, 130 if big else 41):
            for k in list(range(-2, 40 if big else 18)):
                base = 1000 if slice_ else 0

                def m(t):
                    if t is a1:
                        return num(k)
                    if t is hi0:
                        return num(base + n)
                    if t is lo0 and slice_:
                        return num(base)
                    if t.op == "begin" and slice_:
                        return num(base)
                    return None
                try:
                    env = EV.Env(1)
                    cnt = int(EV.ev(subst(count, m), env))
                    l2, h2 = subst(lo, m), subst(hi, m)
                    r = []
                    for j in range(cnt):
                        at = lambda t: num(j) if t is k_ else None
                        r.append((int(EV.ev(subst(l2, at), env)), int(EV.ev(subst(h2, at), env))))
                    if env.leaf:
                        raise EV.Unknown("depends on %s" % list(env.leaf)[:2])
                except (EV.Unknown, TypeError, ValueError) as u:
                    unk = str(u)
                    break
                tried += 1
                why = verdict(r, base, n, k)
                if why:
                    bad = (n, k, why, r)
                    break
            if bad or unk:
                break
        if bad:
            c.viol(name, "dividing %d samples into %d parts: %s (ranges %s); closed form %s" % (bad[0], bad[1], bad[2], bad[3], show(I.value)[:600]), where)
        elif unk:
            c.undecided(name, where, unk)
        else:
            c.ok(name, where, "%d (n, k) points of the closed form" % tried)
        for e in I.events:
            if e.kind == "i2f":
                c.viol(name + " precision", "the division of samples converts the count %s to single precision, which cannot hold counts above 2^24, so ranges no longer end at the last sample" % show(e.val)[:200], loc(e))
        c.counts["points_%s" % ("slice" if slice_ else "count")] = tried
        # No out-of-range write into intermediate containers is possible: reported by the container model.


def verdict(r, base, n, k):
    want = max(1, k)
    if not r:
        return "no range is produced"
    if k >= 1 and len(r) != k:
        return "%d ranges are produced" % len(r)
    if r[0][0] != base:
        return "the first range does not start at the first sample"
    for (a, b), (x, y) in zip(r, r[1:]):
        if b != x:
            return "ranges are not consecutive"
    if r[-1][1] != base + n:
        return "the last range does not end at the last sample"
    s = [y - x for x, y in r]
    if min(s) < 0:
        return "a range is negative"
    if max(s) - min(s) > 1:
        return "range sizes differ by more than one"
    return None
