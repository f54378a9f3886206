"""Routing of samples by a split."""
from ..core import *
from . import partmodel as PM


def check(c):
    c.rules.append("Partition(column, split, slice) summarised with the column accessors abstract and compared with the routing rule under interpretations: missing flag x missing direction x order of value "
                   "and threshold (equality included) x category set (by internal code or by name, unknown names included)")
    P = PM.Part(c)
    N = 2500 if c.tier == "thorough" else 400
    for kind, name in (("kStringColumn", "categorical"), ("kBucketizedFloatColumn", "numeric")):
        n = 0
        try:
            for m, ((b1, k1), (b2, k2)), mem in P.run(kind, N):
                n += 1
                left, right = mem[b1:b1 + k1], mem[b2:b2 + k2]
                for rows, side in ((left, True), (right, False)):
                    bad = [x for x in rows if m.left(x) != side]
                    if bad:
                        c.viol(name, "a sample of %s is sent to the %s (%s)" % (
                            "code %d" % m.code[bad[0]] if kind == "kStringColumn" else "a missing value" if m.code[bad[0]] == 0 else "value %s" % m.hi[m.code[bad[0]]],
                            "left" if side else "right", m.describe()), P.where)
                        break
                else:
                    continue
                break
            else:
                c.ok(name, P.where, "%d interpretations" % n)
        except EV.Unknown as u:
            c.undecided(name, P.where, str(u))
    # a split of the wrong kind must not be applied
    split = argval(P.f, P.kp)
    for col, flag in (("kStringColumn", "has_cat_split"), ("kBucketizedFloatColumn", "has_float_split")):
        rets = P.pc
        ty = next((t for t in gsub(rets) if t.op == "ret" and str(t.a[0]).endswith("Column::type")), None)
        if ty is None:
            c.undecided("mismatch:" + col, P.where, "column type not read")
            continue
        die = bor(*[e.pc for e in P.I.events if e.kind in ("die", "throw")])
        g = band(rets, bnot(die), ieq(ty, num(P.types[col])), bnot(atom(sel(split, (".", flag), "bool"))))
        c.never(g, "mismatch:" + col, "a split of another kind is applied to a column", P.where)
