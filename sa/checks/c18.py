"""A proposed split describes the side it was scored on."""
from ..core import *
from . import splitmodel as SM


def check(c):
    c.rules.append("in the summary of FindBestSplit (a fold over abstract histogram entries) the set of codes selected by the proposed threshold / missing direction / category list, read with the "
                   "routing rule of partitioning, must have exactly the gain that is reported; the histogram is sorted by node score with the configured lambda before a categorical search")
    x = SM.prepare(c)
    big = c.tier == "thorough"
    for string in (True, False):
        kind = "categorical" if string else "numeric"
        n = proposed = 0
        try:
            for m, found, gain, side, note in SM.run(c, x, string, 4000 if big else 400):
                n += 1
                if not found:
                    continue
                proposed += 1
                if string and note:
                    c.viol(kind + ":list", "%s (%s)" % (note, m.describe()), x["where"])
                    break
                g, h = m.gain_of(side)
                if not g == gain and abs(float(g) - float(gain)) > 1e-9:
                    c.viol(kind + ":side", "the proposed split selects codes %s on the left (%s), whose gain is %s, but reports gain %s (%s)" % (
                        sorted(side), note, g, gain, m.describe()), x["where"])
                    break
                if string and not prefix(m.v, side):
                    c.viol(kind + ":order", "the listed categories %s are not the low or high end of the order %s the search went through" % (sorted(side), m.v), x["where"])
                    break
            else:
                c.ok(kind + ":side", x["where"], "%d interpretations, %d with a proposal" % (n, proposed))
        except SM.OutOfRange as o:
            c.viol(kind + ":range", "entry %s of a histogram without such an entry is read" % o, x["where"])
        except EV.Unknown as u:
            c.undecided(kind + ":side", x["where"], str(u))
        c.counts[kind + "_interpretations"] = n
        c.counts[kind + "_proposals"] = proposed
    order(c, x)


def prefix(v, side):
    k = len(side)
    return set(v[:k]) == side or set(v[len(v) - k:]) == side


def order(c, x):
    I = x["I"]
    lam = sel(mk("init", ("arg", x["kcfg"])), (".", "l2_lambda"), "double")
    cols = [(k, e) for k, e in enumerate(I.events) if e.kind == "call" and "Histogram" in e.fn]
    sorts = [(k, e) for k, e in cols if e.fn.endswith("SortOnNodeScore")]
    ty = mk("ret", "Column::type", (mk("sym", "arg", 0),))
    iss = ieq(ty, num(x["types"][0]))
    if not sorts:
        reads = [e for _, e in cols if e.fn.endswith("::value") or e.fn.endswith("::data")]
        if reads:
            c.viol("categories sorted", "a categorical split is searched without ordering the categories by node score", x["where"])
        return
    first = min((k for k, e in cols if (e.fn.endswith("::data") or e.fn.endswith("::value")) and band(e.pc, iss) != 0), default=None)
    for k, e in sorts:
        c.same(e.args[0], lam, "sort lambda", "the regularisation used for ordering categories", loc(e))
        c.decide(first is None or k < first, "sorted first", "the categories are searched before they are ordered by node score", loc(e))
    c.implies(iss, bor(*[e.pc for _, e in sorts]), "always sorted", "a categorical split is searched without ordering the categories", x["where"])
    # the ordering itself
    f = c.method("gbdt::Histogram", "SortOnNodeScore")
    I = c.enter(f, mem=True)
    lam = argval(f, 0)
    where = "src/%s:%s" % (f["file"], f["l"])
    ss = [e for e in I.events if e.kind == "sort"]
    if len(ss) != 1:
        return c.undecided("node score order", where, "%d sorts" % len(ss))
    e = ss[0]
    less = e.less       # guard over the two symbolic elements x, y
    # node totals of a code: whatever the comparator reads, indexed by that code
    c.decide(e.pc == 1, "node score order:always", "the categories are ordered only when %s" % bshow(e.pc)[:200], loc(e))
    bad = None
    n = 0
    rnd = random.Random(c.seed)
    for it in range(60):
        d = {1: (Fraction(rnd.randint(-4, 4)), Fraction(rnd.randint(0, 3))), 2: (Fraction(rnd.randint(-4, 4)), Fraction(rnd.randint(0, 3)))}
        lv = Fraction(rnd.choice([0, 1, 2]))

        def sem(env, k):
            if k[0] == "sym" and k[1] in ("x", "y"):
                return Fraction(1 + (k[1] == "y"))
            if k[0] == "sel" and k[2] == "[" and k[3] in (1, 2):
                return {"g": d[k[3]][0], "h": d[k[3]][1]}
            if k[0] in ("sym",) and k[1] == "arg":
                return lv
            return None
        E = EV.Env(it)
        E.sem = sem
        score = lambda q: Fraction(0) if d[q][1] + lv == 0 else d[q][0] / (d[q][1] + lv)
        try:
            got = EV.evg(less, E, {})
        except EV.Unknown as u:
            return c.undecided("node score order", where, str(u))
        n += 1
        if E.leaf:
            return c.undecided("node score order", where, "comparator reads %s" % str(list(E.leaf)[:2])[:200])
        if got != (score(1) < score(2)):
            bad = (d, lv, got)
            break
    if bad:
        c.viol("node score order", "with totals %s and lambda %s the ordering used for categories says less = %s, node scores say otherwise" % (
            {k: tuple(map(str, v)) for k, v in bad[0].items()}, bad[1], bad[2]), loc(e))
    else:
        c.ok("node score order", loc(e), "%d points" % n)
