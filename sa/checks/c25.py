"""Loss functions: value graphs of the four losses against the documented closed forms."""
from ..core import *


def reference(y, f):
    m = mul(y, f)
    d = sub(y, f)
    e = fn("exp", m)
    en = fn("exp", neg(m))
    p = add(ONE, e)
    ref = {
        "ComputeMSE": (mul(d, d), d, ONE),
        "ComputeLogLoss": (fn("log", add(ONE, en)), div(y, p), div(e, mul(p, p))),
        "ComputeHuberizedHinge": tuple(
            ite(fle(ONE, m), a, ite(fle(ZERO, m), b, c)) for a, b, c in (
                (ZERO, mul(num(Fraction(1, 2)), mul(sub(ONE, m), sub(ONE, m))), sub(num(Fraction(1, 2)), m)),
                (ZERO, mul(sub(ONE, m), y), y),
                (ZERO, ONE, ZERO))),
        "ComputeSquaredHinge": tuple(ite(flt(ZERO, mul(d, y)), a, ZERO) for a in (mul(d, d), d, ONE)),
    }
    return ref


PTS = [Fraction(x) for x in (0, 1, -1, 2, -2, 3, -5, 8, -11)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2), Fraction(-7, 3), Fraction(5, 4)]
SIGN = [Fraction(1), Fraction(-1)]


def targets(env, key, t):
    """Margin losses are documented for targets -1 and +1."""
    return None


def check(c):
    c.rules.append("each loss function's three results (loss, gradient, hessian) are extracted as expressions of (target, score) and must equal the documented "
                   "formula (normal form, then random interpretation); the unsimplified expression is interpreted in extended double arithmetic at margins beyond the range of exp, where it must stay finite")
    c.notes.append("logistic and huberized losses are compared for targets -1 and +1 (all that training accepts); huberized and squared hinge branches at their exact boundaries are equal on both sides")
    names = {}
    for fname in ("ComputeMSE", "ComputeLogLoss", "ComputeHuberizedHinge", "ComputeSquaredHinge"):
        fs = c.find(fname, 2)
        for f in fs:
            I = c.enter(f)
            y, s = argval(f, 0), argval(f, 1)
            want = reference(y, s)[fname]
            where = "src/%s:%s" % (f["file"], f["l"])
            binary = fname in ("ComputeLogLoss", "ComputeHuberizedHinge")

            def hook(env, key, t, binary=binary, y=y):
                if binary and t is y:
                    return random.Random("%s/%s" % (env.seed, key)).choice(SIGN)
                return None
            for i, part in enumerate(("loss", "gradient", "hessian")):
                got = sel(I.value, (".", str(i)), "double")
                c.same(got, want[i], "%s:%s" % (fname, part), "%s of %s" % (part, fname), where=where, hook=hook, floats=PTS)
            R = c.enter(f, raw=True)
            for i, part in enumerate(("loss", "gradient", "hessian")):
                finite(c, sel(R.value, (".", str(i)), "double"), fname, part, y, s, where)


def finite(c, v, fname, part, y, s, where):
    """The unsimplified expression in extended double arithmetic at margins beyond the range of exp."""
    name = "%s:%s:finite" % (fname, part)
    for sv in (0.0, 1.0, -1.0, 40.0, -40.0, 745.0, -745.0, 1e4, -1e4, 1e6, -1e6):
        for yv in (1.0, -1.0):
            try:
                x = EV.ieee(v, {y: yv, s: sv})
            except EV.Unknown as u:
                return c.undecided(name, where, "expression not evaluable (%s)" % u)
            if x != x or x in (EV.INF, -EV.INF):
                return c.viol(name, "%s of %s becomes %s at target %s, score %s: the expression %s overflows" % (part, fname, x, yv, sv, show(v)[:400]), where)
            if part != "gradient" and x < 0:
                return c.viol(name, "%s of %s is negative (%s) at target %s, score %s" % (part, fname, x, yv, sv), where)
    c.ok(name, where, "finite over the extended domain")
