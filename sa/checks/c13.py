"""Column encoding loses nothing and preserves row order."""
from ..core import *
from .colmodel import *
from .c22 import run
from .c36 import Bad
import random


def check(c):
    c.rules.append("the constructors, Add, Finalize and the readers of the column classes are summarised (loops as folds, virtual code columns resolved by the object "
                   "created) and chained: for sequences of added vectors -- few and many distinct values, also just below, at and above the capacity of 8 and 16 bit codes, "
                   "missing values, repeated and late values -- every row read back must be the row added: the same string, a bucket whose bounds contain the float, the same raw float; "
                   "as many rows as values, and buckets numbered in increasing order of value")
    S, B_, R = Col(c, "StringColumn"), Col(c, "BucketizedFloatColumn"), Col(c, "RawFloatColumn")
    run(c, "strings", S.where("Add"), lambda: guard(S, lambda: strings(c, S)))
    run(c, "string width", S.where("Finalize"), lambda: guard(S, lambda: swidth(c, S)))
    run(c, "buckets", B_.where("BuildBuckets"), lambda: guard(B_, lambda: buckets(c, B_)))
    run(c, "bucket width", B_.where("Add"), lambda: guard(B_, lambda: bwidth(c, B_)))
    run(c, "raw", R.where("Add"), lambda: guard(R, lambda: raw(c, R)))
    run(c, "factories", "src/data_store/column.cc", lambda: factories(c, S, B_, R))


def guard(M, f):
    M.at = ""
    try:
        return f()
    except EV.Stuck as u:
        raise Bad("reading", "%s: a read past the end (%s); %s" % (M.cls, u, M.at), M.where("Add"))


def string_rows(M, vs, rows=None):
    x = M.construct()
    M.at = "strings %s" % " then ".join(short(v) for v in vs)
    for v in vs:
        x = M.run("Add", x, v)
    want = [s for v in vs for s in v]
    n = EV.num_(M.ask("size", x))
    if n != len(want):
        raise Bad("rows", "a string column has %s rows after adding %d strings (%s)" % (n, len(want), M.at), M.where("Add"))
    for i in rows if rows is not None else range(len(want)):
        got = M.ask("get_row_string", x, i)
        if not (isinstance(got, tuple) and got[:1] == ("str",)):
            raise EV.Unknown("string of row %d: %r" % (i, got))
        if got[1] != want[i]:
            raise Bad("decode", "row %d decodes to '%s'; '%s' was added (%s; %d distinct strings)" % (i, got[1], want[i], M.at, len(set(want))), M.where("Add"))


def strings(c, M):
    N = 150 if c.tier == "thorough" else 30
    for it in range(N):
        r = random.Random("%s/s%d" % (c.seed, it))
        kinds = r.sample(["a", "b", "", "__missing__", "A", "a b", "0", "1.5", "zz", "missing", "nan"], r.randint(1, 6))
        string_rows(M, pieces(r, [r.choice(kinds) for _ in range(r.randint(0, 9))]))
    return N


def swidth(c, M):
    ns = [127, 128, 254, 255, 256, 257, 65535, 65536]
    if c.tier == "thorough":
        ns += [126, 129, 300, 32767, 32768, 65534, 65537]
    for n in ns:
        xs = ["s%d" % i for i in range(n)]
        two = xs[:2] + xs + xs[-2:]
        string_rows(M, [two], [0, 1, 2, 3, n // 2, n - 1, n, n + 1, n + 2, n + 3])
        string_rows(M, [xs], [0, 1, n // 2, n - 2, n - 1])      # as many rows as strings
        if n < 300:
            string_rows(M, [xs[: n // 2], ["s0"] * 600 + xs[n // 2:]], [0, 1, n // 2 - 1, n // 2, n + 598, n + 599])
    return 2 * len(ns)


def bucket_rows(M, nb, vs, rows=None, order=True, build=False):
    x = M.construct(n=nb)
    M.at = "%d buckets, values %s" % (nb, " then ".join(short(v) for v in vs))
    for k, v in enumerate(vs):
        x = M.run("Add", x, v)
        if build and not k:
            x = M.run("BuildBuckets", x)
    want = [value(s) for v in vs for s in v]
    n = EV.num_(M.ask("size", x))
    if n != len(want):
        raise Bad("rows", "a bucketized column has %s rows after adding %d values (%s)" % (n, len(want), M.at), M.where("Add"))
    seen = []
    for i in rows if rows is not None else range(len(want)):
        lo, hi, code = [M.ask(q, x, i) for q in ("get_row_min", "get_row_max", "code")]
        w = want[i]
        if EV.isnanv(w):
            continue
        for z in (lo, hi, code):
            if not isinstance(z, (F, int, float)):
                raise EV.Unknown("bucket of row %d" % i)
        if EV.isnanv(lo) or EV.isnanv(hi) or not lo <= w <= hi:
            raise Bad("bucket", "row %d with value %s is in the bucket [%s, %s] (%s)" % (i, show1(w), show1(lo), show1(hi), M.at), M.where("Add"))
        seen.append((w, code))
    if order:
        seen.sort()
        for (v, a), (w, b) in zip(seen, seen[1:]):
            if v == w and a != b or a > b:
                raise Bad("order", "value %s has code %s and value %s code %s (%s)" % (show1(v), a, show1(w), b, M.at), M.where("BuildBuckets"))


def show1(x):
    return "missing" if EV.isnanv(x) else "%g" % float(x)


def buckets(c, M):
    N = 120 if c.tier == "thorough" else 26
    for it in range(N):
        r = random.Random("%s/b%d" % (c.seed, it))
        nb = r.choice([1, 1, 2, 3, 4, 5, 8, 30])
        xs = floats(r, r.randint(0, 14), r.randint(1, 10), r.choice([0, 0.2, 0.5]))
        if it % 5 == 4:         # enough values to build the buckets before the last ones are added
            nb = r.choice([1, 2])
            xs = floats(r, 101 * nb, r.randint(2, 12))
            late = floats(r, 5, 3) + [F(100), F(-100), F(1, 3)]
            bucket_rows(M, nb, [xs, late[:5], late[5:]], [0, 1, 2, len(xs) - 1] + list(range(len(xs), len(xs) + len(late))))
            continue
        bucket_rows(M, nb, pieces(r, xs))
    return N


def bwidth(c, M):
    ns = [127, 254, 255, 256]
    big = [65532, 65533, 65534, 65535, 65536] if c.tier == "thorough" else [65534, 65535]
    for n in ns + big:
        if n in big and sum(1 for o in c.obls if o[1] == "undecided"):
            continue
        xs = [F(i) for i in range(n)]
        bucket_rows(M, n + 10, [xs + xs[-2:], [F(n + 5), F(-1), F(n)]], [0, 1, 2, 3, n // 2, n - 2, n - 1, n, n + 1, n + 2, n + 3, n + 4], build=True)
    return len(ns + big)


def raw(c, M):
    N = 100 if c.tier == "thorough" else 30
    for it in range(N):
        r = random.Random("%s/r%d" % (c.seed, it))
        vs = pieces(r, floats(r, r.randint(0, 9), 6))
        x = M.construct()
        M.at = "values %s" % " then ".join(short(v) for v in vs)
        for v in vs:
            x = M.run("Add", x, v)
        want = [value(s) for v in vs for s in v]
        n = EV.num_(M.ask("size", x))
        if n != len(want):
            raise Bad("rows", "a raw column has %s rows after adding %d values (%s)" % (n, len(want), M.at), M.where("Add"))
        for i, w in enumerate(want):
            got = M.ask("operator[]", x, i)
            if not (EV.isnanv(w) and EV.isnanv(got) or got == w):
                raise Bad("raw", "row %d reads %s; %s was added (%s)" % (i, got, w, M.at), M.where("Add"))
    return N


def factories(c, S, B_, R):
    n = 0
    for fn, col, q in (("Column::CreateStringColumn", S, "get_row_string"), ("Column::CreateBucketizedFloatColumn", B_, None), ("Column::CreateRawFloatColumn", R, "operator[]")):
        T = Factory(c, fn, col)
        col.at = fn
        for it in range(6):
            r = random.Random("%s/f%d" % (c.seed, it))
            xs = [r.choice("abc") for _ in range(5)] if col is S else [F(r.randint(-3, 3)) for _ in range(5)]
            vals = [value(x) for x in xs]
            args = {}
            for k, p in enumerate(T.f["params"]):
                args[k] = vals if "vector" in p["t"] else ("str", "c") if "string" in p["t"] else F(7)
            try:
                nrow = EV.num_(T.ask("size", args))
            except EV.Stuck as u:
                raise Bad("factory", "%s: %s" % (fn, u), T.where)
            if nrow != len(xs):
                raise Bad("factory rows", "%s given %d values returns a column of %s rows" % (fn, len(xs), nrow), T.where)
            for i, w in enumerate(vals):
                if q:
                    got = T.ask(q, args, i)
                    if got != w:
                        raise Bad("factory value", "%s: row %d is %s, %s was given" % (fn, i, got, w), T.where)
                else:
                    lo, hi = T.ask("get_row_min", args, i), T.ask("get_row_max", args, i)
                    if not lo <= w <= hi:
                        raise Bad("factory value", "%s: row %d with value %s has the bucket [%s, %s]" % (fn, i, w, lo, hi), T.where)
            nm = T.ask("name", args)
            if nm != ("str", "c"):
                raise Bad("factory name", "%s gives the column the name %s" % (fn, nm), T.where)
            n += 1
    return n
