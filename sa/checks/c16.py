"""Partitioning keeps every sample exactly once."""
from ..core import *
from . import partmodel as PM


def check(c):
    c.rules.append("final memory and result slices of Partition, as extracted, under interpretations of columns and splits: left part starts the slice, right part follows and ends it, the slice's memory is a "
                   "permutation of what it was and memory after the slice is unchanged; nothing else reachable by the caller is written")
    P = PM.Part(c)
    N = 2500 if c.tier == "thorough" else 400
    for kind in ("kStringColumn", "kBucketizedFloatColumn", "kRawFloatColumn"):
        n = 0
        try:
            for m, parts, mem in P.run(kind, N):
                n += 1
                k = len(m.rows)
                (b1, k1), (b2, k2) = parts
                d = m.describe()
                if k1 < 0 or k2 < 0 or k1 + k2 != k or (k1 and b1 != 0) or (k2 and b2 != k1):
                    c.viol(kind + ":slices", "%d samples are returned as [%d, %d) and [%d, %d) (%s)" % (k, b1, b1 + k1, b2, b2 + k2, d), P.where)
                    break
                if sorted(mem[:k]) != sorted(m.rows):
                    c.viol(kind + ":permutation", "samples %s become %s (%s)" % (m.rows, mem[:k], d), P.where)
                    break
                if mem[k:] != m.after:
                    c.viol(kind + ":outside", "memory after the slice is changed (%s)" % d, P.where)
                    break
                if kind == "kRawFloatColumn" and k and k1 and k2:
                    c.viol(kind + ":one side", "a column that cannot be split divides the samples (%s)" % d, P.where)
                    break
            else:
                c.ok(kind, P.where, "%d interpretations" % n)
        except EV.Unknown as u:
            c.undecided(kind, P.where, str(u))
    # effects: only the slice's own memory (and locals)
    for e in P.I.events:
        if e.kind != "write" or e.root is None:
            continue
        r = e.root
        if r[0] in ("v", "tmp", "heap", "new") or r == P.root or r == ("arg", P.ks):
            continue
        base = IN.rootbase(r) if hasattr(IN, "rootbase") else r
        if r[0] == "*" and r[1] is not None and any(t is P.begin or t is P.arg for t in subterms(r[1])):
            continue
        c.viol("effect:%s" % (r[0],), "partitioning writes %s" % (str(r)[:100],), loc(e))
    c.ok("effects", P.where)
