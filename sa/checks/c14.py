"""C14: missing values keep their reserved code; the consumers recognise missing rows by it."""
import copy
import random

from ..core import *
from .c22 import run
from .c36 import Bad
from .colmodel import *
from .c13 import guard
from . import c19
from . import partmodel as PM

MISSING = "__missing__"


def check(c):
    c.rules.append("add, finalize, the row reader and the missing test of the string and bucketized columns: summaries with memory chained "
                     "into one interpretation over generated mixes of missing and present values, obligation: missing iff code 0, missing(i) iff "
                     "code 0, and a NaN bucket bound exactly for missing; plus the consumers: a row of code 0 is routed by the missing direction of a "
                     "numeric split, and the histogram keeps the totals of code 0 apart")
    S, B_ = Col(c, "StringColumn"), Col(c, "BucketizedFloatColumn")
    run(c, "strings", S.where("Add"), lambda: guard(S, lambda: strings(c, S)))
    run(c, "buckets", B_.where("Add"), lambda: guard(B_, lambda: buckets(c, B_)))
    run(c, "routing", "src/gbdt_algo/split_algo.cc", lambda: routing(c))
    run(c, "totals", "src/gbdt_algo/histogram.cc", lambda: totals(c))


def rows(M, x, want, miss):
    for i, w in enumerate(want):
        code = M.ask("code", x, i)
        m = M.ask("missing", x, i)
        m = EV.num_(m) != 0 if not isinstance(m, bool) else m
        if miss(w) != (code == 0):
            raise Bad("code", "row %d with %s gets code %s (%s)" % (i, "a missing value" if miss(w) else "value %s" % (w[1] if isinstance(w, tuple) else float(w)), code, M.at), M.where("Add"))
        if m != miss(w):
            raise Bad("missing", "row %d (%s, code %s): missing() says %s (%s)" % (i, "a missing value" if miss(w) else "a present value", code, m, M.at), M.where("Add"))


def strings(c, M):
    N = 120 if c.tier == "thorough" else 30
    for it in range(N):
        r = random.Random("%s/m%d" % (c.seed, it))
        kinds = r.sample(["a", "b", "", "A", "__missing", "_missing_", "missing", "nan", "0", "__MISSING__"], r.randint(0, 6)) + [MISSING]
        vs = pieces(r, [r.choice(kinds) for _ in range(r.randint(1, 9))])
        if it == 0:
            vs = [["a", "b", "a"]]
        if it == 1:
            vs = [["a"], [MISSING, "b"]]
        x = M.construct()
        M.at = "strings %s" % " then ".join(short(v) for v in vs)
        for v in vs:
            x = M.run("Add", x, v)
        rows(M, x, [value(s) for v in vs for s in v], lambda w: w == ("str", MISSING))
    return N


def buckets(c, M):
    N = 120 if c.tier == "thorough" else 30
    for it in range(N):
        r = random.Random("%s/n%d" % (c.seed, it))
        nb = r.choice([1, 2, 3, 4, 8, 30])
        nan = r.choice([0, 0.2, 0.5, 0.9, 1])
        vs = pieces(r, floats(r, r.randint(1, 12), r.randint(1, 8), nan))
        if it % 6 == 5:
            nb = 1
            xs = floats(r, 101, r.randint(2, 9), nan)
            vs = [xs, floats(r, 4, 3, 0.5) + [NAN, F(100), F(-100), NAN]]
        x = M.construct(n=nb)
        M.at = "%d buckets, values %s" % (nb, " then ".join(short(v) for v in vs))
        for v in vs:
            x = M.run("Add", x, v)
        want = [value(s) for v in vs for s in v]
        rows(M, x, want, EV.isnanv)
        for i, w in enumerate(want):
            for q in ("get_row_max", "get_row_min"):
                z = M.ask(q, x, i)
                if EV.isnanv(z) and not EV.isnanv(w):
                    raise Bad("bound", "row %d with value %s: %s is NaN (%s)" % (i, float(w), q, M.at), M.where("Add"))
                if EV.isnanv(w) and not EV.isnanv(z):
                    raise Bad("bound", "row %d with a missing value: %s is %s (%s)" % (i, q, float(z), M.at), M.where("Add"))
    return N


def routing(c):
    """The partition sends missing rows where the split says, and only those."""
    P = PM.Part(c)
    n = 0
    for m, ((b1, k1), (b2, k2)), mem in P.run("kBucketizedFloatColumn", 2000 if c.tier == "thorough" else 300):
        n += 1
        for rows, side in ((mem[b1:b1 + k1], True), (mem[b2:b2 + k2], False)):
            for x in rows:
                if m.code[x] == 0 and m.left(x) != side:
                    raise Bad("routing", "a row of code 0 (missing) is sent to the %s (%s)" % ("left" if side else "right", m.describe()), P.where)
    return n


def totals(c):
    """The histogram keeps the totals of the missing rows apart."""
    sub = copy.copy(c)
    sub.obls, sub.viols = [], []
    c19.hist(sub)
    for v in sub.viols:
        if v["key"] in ("missing totals", "has missing"):
            raise Bad(v["key"], v["message"], v["where"])
    if any(o[1] == "undecided" for o in sub.obls):
        raise EV.Unknown([o[3] for o in sub.obls if o[1] == "undecided"][0])
    return c.counts.get("histogram_interpretations", 1)
