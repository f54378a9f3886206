"""Hash-consed value-graph terms with canonical polynomial arithmetic and BDD guards.

A term is the canonical description of the value an expression has in the analysed source.  Two
expressions with the same canonical term have the same value for every input (modulo floating
point rounding and integer overflow, which the analysis does not model).  Guards (path conditions
and boolean values) are BDDs whose variables are atomic predicate terms, so propositional
equivalence is decided by identity."""
from fractions import Fraction
import math, sys

sys.setrecursionlimit(100000)


class Term:
    __slots__ = ("op", "a", "id", "h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
TYPE = {}       # leaf term -> C++ type text
ITER = set()    # terms that are sequence iterators / array pointers
MAPIT = {}      # loop-carried map iterators -> (root, path, kind)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id = op, a, len(_tab)
        t.h = hash(k)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- BDD
_bvar = {}          # atom term -> index
_batom = []         # index -> atom
_nodes = [(None, None, None), (None, None, None)]   # 0 = false, 1 = true
_ntab = {}
_itec = {}


def bdd(var, hi, lo):
    if hi == lo:
        return hi
    k = (var, hi, lo)
    n = _ntab.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _ntab[k] = n
    return n


def atom(t):
    i = _bvar.get(t)
    if i is None:
        i = len(_batom)
        _bvar[t] = i
        _batom.append(t)
    return bdd(i, 1, 0)


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(_nodes[x][0] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x > 1 and _nodes[x][0] == v:
            return _nodes[x][1 if b else 2]
        return x
    r = bdd(v, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _itec[k] = r
    return r


def band(*xs):
    r = 1
    for x in xs:
        r = bite(r, x, 0)
    return r


def bor(*xs):
    r = 0
    for x in xs:
        r = bite(r, 1, x)
    return r


def bnot(x):
    return bite(x, 0, 1)


def implies(a, b):
    return band(a, bnot(b)) == 0


def batoms(n, seen=None):
    """Atoms a guard depends on."""
    out, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        v, h, l = _nodes[x]
        if _batom[v] not in out:
            out.append(_batom[v])
        st += [h, l]
    return out


def brestrict(f, c):
    """Generalised cofactor: simplifies f assuming guard c holds."""
    if c == 0 or f <= 1 or c == 1:
        return f
    k = ("r", f, c)
    r = _itec.get(k)
    if r is not None:
        return r
    vf, vc = _nodes[f][0], _nodes[c][0]
    if vc < vf:
        h, l = _nodes[c][1], _nodes[c][2]
        r = brestrict(f, l) if h == 0 else brestrict(f, h) if l == 0 else brestrict(f, bor(h, l))
    else:
        fh, fl = _nodes[f][1], _nodes[f][2]
        ch, cl = (_nodes[c][1], _nodes[c][2]) if vc == vf else (c, c)
        if ch == 0:
            r = brestrict(fl, cl)
        elif cl == 0:
            r = brestrict(fh, ch)
        else:
            r = bdd(vf, brestrict(fh, ch), brestrict(fl, cl))
    _itec[k] = r
    return r


def bmap(n, f, memo=None):
    """Rebuilds guard n with every atom replaced by the guard f(atom)."""
    memo = {} if memo is None else memo
    if n <= 1:
        return n
    r = memo.get(n)
    if r is None:
        v, h, l = _nodes[n]
        r = bite(f(_batom[v]), bmap(h, f, memo), bmap(l, f, memo))
        memo[n] = r
    return r


def bcubes(n, limit=200):
    """Paths to true as lists of (atom, polarity)."""
    out = []

    def go(x, acc):
        if len(out) >= limit or x == 0:
            return
        if x == 1:
            out.append(list(acc))
            return
        v, h, l = _nodes[x]
        go(h, acc + [(_batom[v], True)])
        go(l, acc + [(_batom[v], False)])
    go(n, [])
    return out


# ---------------------------------------------------------------- booleans as terms
def B(n):
    return mk("b", n)


TRUE, FALSE = B(1), B(0)
NULL = mk("null")
NAN = mk("nan")
UNIT = mk("unit")


def isbool(t):
    return t.op == "b"


def tobool(t):
    """Guard for the truth value of term t."""
    if t.op == "b":
        return t.a[0]
    if t.op == "num":
        return 1 if t.a[0] != 0 else 0
    if t.op == "ite":
        return bite(t.a[0], tobool(t.a[1]), tobool(t.a[2]))
    if t.op in ("addr", "closure", "fnref", "bind"):
        return 1
    if t.op == "null":
        return 0
    return atom(t)


# ---------------------------------------------------------------- ite
def leaves(t, n=0):
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    return 1


def under(t, c):
    """Simplifies ite structure of t assuming guard c."""
    if c == 1:
        return t
    if t.op == "ite":
        if implies(c, t.a[0]):
            return under(t.a[1], c)
        if band(c, t.a[0]) == 0:
            return under(t.a[2], c)
        k = ("u", t, c)
        r = _itec.get(k)
        if r is None:
            r = ite(brestrict(t.a[0], c), under(t.a[1], c), under(t.a[2], c), False)
            _itec[k] = r
        return r
    if t.op == "b":
        return B(brestrict(t.a[0], c))
    if t.op in ("upd",) and any(x.op in ("ite", "b", "upd") for x in (t.a[0], t.a[2])):
        k = ("u", t, c)
        r = _itec.get(k)
        if r is None:
            r = upd(under(t.a[0], c), t.a[1], under(t.a[2], c))
            _itec[k] = r
        return r
    return t


def ite(c, a, b, simp=True):
    if c == 1:
        return a
    if c == 0:
        return b
    if a is b:
        return a
    if a.op == "b" and b.op == "b":
        return B(bite(c, a.a[0], b.a[0]))
    if simp:
        a, b = under(a, c), under(b, bnot(c))
        if a is b:
            return a
        if a.op == "b" and b.op == "b":
            return B(bite(c, a.a[0], b.a[0]))
    # record updates over a common base: push the choice into the fields
    if a.op == "upd" or b.op == "upd":
        r = _merge_upd(c, a, b)
        if r is not None:
            return r
    # canonical polarity: top variable decided positively
    if a.op == "ite" and a.a[2] is b:
        return ite(band(c, a.a[0]), a.a[1], b, False)
    if a.op == "ite" and a.a[1] is b:
        return ite(band(c, bnot(a.a[0])), a.a[2], b, False)
    if b.op == "ite" and b.a[1] is a:
        return ite(bor(c, b.a[0]), a, b.a[2], False)
    if b.op == "ite" and b.a[2] is a:
        return ite(bor(c, bnot(b.a[0])), a, b.a[1], False)
    n = bnot(c)
    if n < c:
        c, a, b = n, b, a
    return mk("ite", c, a, b)


def _chain(t):
    d = []
    while t.op == "upd":
        d.append((t.a[1], t.a[2]))
        t = t.a[0]
    return t, d


def _merge_upd(c, a, b):
    ba, da = _chain(a)
    bb, db = _chain(b)
    if ba is not bb:
        # allow one chain to be a prefix base of the other
        return None
    keys = []
    for e, _ in da[::-1] + db[::-1]:
        if e not in keys:
            keys.append(e)
    idx = [e for e in keys if e[0] != "."]
    if len(idx) > 1 or (idx and len(keys) > 1):
        return None
    if idx and idx[0][0] == "{" and not all(any(e == idx[0] for e, _ in d) for d in (da, db)):
        return None                 # writing a key inserts it: not the same as keeping the map
    r = ba
    for e in keys:
        va, vb = sel(a, e), sel(b, e)
        r = upd(r, e, ite(c, va, vb))
    return r


def ite_any(conds, default):
    r = default
    for c, v in reversed(conds):
        r = ite(c, v, r)
    return r


def lift(f, *ts):
    """Applies f to terms, distributing over ite (bounded)."""
    n = 1
    for t in ts:
        n *= leaves(t)
    if n == 1 or n > 128:
        return f(*ts)
    for i, t in enumerate(ts):
        if t.op == "ite":
            c = t.a[0]
            x = [under(y, c) for y in ts]
            x[i] = t.a[1]
            nc = bnot(c)
            y = [under(z, nc) for z in ts]
            y[i] = t.a[2]
            return ite(c, lift(f, *x), lift(f, *y), False)
    return f(*ts)


# ---------------------------------------------------------------- arithmetic
def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return mk("inf", 1 if v > 0 else -1)
        v = Fraction(v)
    v = Fraction(v)
    return mk("num", v)


ZERO, ONE = num(0), num(1)


def topoly(t):
    """dict mono -> coef; mono is a sorted tuple of (atom, exponent)."""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "b":
        t = ite(t.a[0], ONE, ZERO) if t.a[0] > 1 else num(t.a[0])
        if t.op == "num":
            return topoly(t)
    return {((t, 1),): Fraction(1)}


def frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [(x.id, e) for x, e in mc[0]])))
    return mk("poly", items)


def _bad(*ts):
    return any(t.op in ("nan",) for t in ts)


def _mulmono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))


def add(*ts):
    return lift(_add, *ts)


def _add(*ts):
    if _bad(*ts):
        return NAN
    r = {}
    for t in ts:
        for m, c in topoly(t).items():
            r[m] = r.get(m, 0) + c
    return frompoly(r)


def scale(t, k):
    return lift(lambda x: x if x.op == "nan" else frompoly({m: c * k for m, c in topoly(x).items()}), t)


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    if _bad(a, b):
        return NAN
    pa, pb = topoly(a), topoly(b)
    if len(pa) * len(pb) > 400:
        return mk("mul", *sorted((a, b)))
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return frompoly(r)


def _factor(p):
    """Splits polynomial dict into (coef, mono, rest poly dict) with the rest's leading coef 1."""
    mono = None
    for m in p:
        d = dict(m)
        mono = d if mono is None else {x: min(e, d.get(x, 0)) if min(e, d.get(x, 0)) > 0 else 0 for x, e in mono.items()}
    mono = tuple(sorted(((x, e) for x, e in mono.items() if e), key=lambda z: z[0].id)) if mono else ()
    if len(p) == 1:
        (m, c), = p.items()
        return c, m, None
    inv = tuple((x, -e) for x, e in mono)
    q = {_mulmono(m, inv): c for m, c in p.items()}
    t = frompoly(q)
    lead = t.a[0][-1][1] if t.op == "poly" else Fraction(1)
    q = {m: c / lead for m, c in q.items()}
    return lead, mono, q


def div(a, b):
    """Real division."""
    return lift(_div, a, b)


def _div(a, b):
    if _bad(a, b):
        return NAN
    pb = topoly(b)
    if not pb:
        return mk("divzero", a)
    c, m, rest = _factor(pb)
    if rest is not None:
        m = _mulmono(m, ((mk("grp", frompoly(rest)), 1),))
    inv = tuple((x, -e) for x, e in m)
    pa = topoly(a)
    # cancel the same group in the numerator
    if rest is not None and len(pa) > 1:
        ca, ma, ra = _factor(pa)
        if ra == rest:
            pa = {_mulmono(ma, ((mk("grp", frompoly(rest)), 1),)): ca}
    return frompoly({_mulmono(mm, inv): cc / c for mm, cc in pa.items()})


def idiv(a, b):
    def f(x, y):
        if x.op == "num" and y.op == "num" and y.a[0] != 0:
            q = abs(x.a[0]) // abs(y.a[0])
            return num(q if (x.a[0] >= 0) == (y.a[0] >= 0) else -q)
        if y.op == "num" and y.a[0] == 1:
            return x
        return mk("idiv", x, y)
    return lift(f, a, b)


def imod(a, b):
    def f(x, y):
        if x.op == "num" and y.op == "num" and y.a[0] != 0:
            return num(abs(x.a[0]) % abs(y.a[0]) * (1 if x.a[0] >= 0 else -1))
        return mk("imod", x, y)
    return lift(f, a, b)


# ---------------------------------------------------------------- comparisons
def _sgn(t):
    """+1 if the leading coefficient is positive (canonical orientation)."""
    if t.op == "poly":
        return 1 if t.a[0][-1][1] > 0 else -1
    return 1


def nonneg(t, depth=0):
    if t.op == "num":
        return t.a[0] >= 0
    if t.op in ("size", "u", "count"):
        return True
    if t.op in ("idx", "bv", "first"):
        return True
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == "poly":
        if all(c >= 0 and all(nonneg(x) or e % 2 == 0 for x, e in m) for m, c in t.a[0]):
            return True
        if depth > 3:
            return False
        # loop indices are at most their bound minus one
        from . import interp
        for m, c in t.a[0]:
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "idx":
                L = interp.LOOPS.get(m[0][0].a[0])
                if L and L.hi is not None and L.hi.op != "ite":
                    x = m[0][0]
                    u = add(t, scale(x, -c), scale(sub(L.hi, ONE), c))
                    if u is not t and nonneg(u, depth + 1):
                        return True
        return False
    if t.op == "fn" and t.a[0] in ("fabs", "exp"):
        return True
    if t.op in ("sum",):
        return nonneg(t.a[1])
    if t.op == "imod" or t.op == "idiv":
        return nonneg(t.a[0]) and nonneg(t.a[1])
    ty = TYPE.get(t)
    if ty and ("unsigned" in ty or ty == "bool"):
        return True
    return False


def ge0(t):
    """Guard: integer term >= 0."""
    if t.op == "ite":
        return bite(t.a[0], ge0(t.a[1]), ge0(t.a[2]))
    if t.op == "num":
        return 1 if t.a[0] >= 0 else 0
    if t.op == "b":
        return 1
    p = topoly(t)
    c0 = p.get((), Fraction(0))
    rest = {m: c for m, c in p.items() if m != ()}
    g = 0
    for c in rest.values():
        g = math.gcd(g, abs(c.numerator)) if c.denominator == 1 else 1
    if g > 1:
        rest = {m: c / g for m, c in rest.items()}
        c0 = Fraction(math.floor(c0 / g))
    if c0 >= 0 and nonneg(frompoly(rest)) or nonneg(frompoly({**rest, (): c0})):
        return 1
    if c0 < 0 and nonneg(frompoly({m: -c for m, c in rest.items()})) or \
            nonneg(frompoly({**{m: -c for m, c in rest.items()}, (): -c0 - 1})):
        return 0
    q = frompoly(dict(rest, **{}) if c0 == 0 else {**rest, (): c0})
    if _lead(rest) > 0:
        return _geatom(rest, c0)
    # x >= 0  <=>  not (-x-1 >= 0)
    nr = {m: -c for m, c in rest.items()}
    return bnot(_geatom(nr, -c0 - 1))


def _lead(p):
    t = max(p.items(), key=lambda mc: (len(mc[0]), [(x.id, e) for x, e in mc[0]]))
    return t[1]


def _geatom(rest, c0):
    # min/max on the left are split: rest - single max/min atom with coef 1
    if len(rest) == 1:
        (m, c), = rest.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("min", "max") and m[0][0].a[0] == "i":
            k = num(c0)
            xs = [ge0(add(scale(x, c), k)) for x in m[0][0].a[1:]]
            return band(*xs) if m[0][0].op == "min" else bor(*xs)
    return atom(mk("ge0", frompoly({**rest, (): c0}) if c0 else frompoly(rest)))


def eq0(t):
    if t.op == "ite":
        return bite(t.a[0], eq0(t.a[1]), eq0(t.a[2]))
    if t.op == "num":
        return 1 if t.a[0] == 0 else 0
    if t.op == "b":
        return bnot(t.a[0])
    p = topoly(t)
    if _lead({m: c for m, c in p.items() if m != ()}) < 0:
        p = {m: -c for m, c in p.items()}
    q = frompoly(p)
    # provably non-zero
    c0 = p.get((), Fraction(0))
    rest = frompoly({m: c for m, c in p.items() if m != ()})
    if c0 > 0 and nonneg(rest):
        return 0
    return atom(mk("eq0", q))


def ilt(a, b):
    return lift(lambda x, y: B(ge0(sub(sub(y, x), ONE))), a, b).a[0]


def ile(a, b):
    return lift(lambda x, y: B(ge0(sub(y, x))), a, b).a[0]


def ieq(a, b):
    return lift(lambda x, y: B(eq0(sub(x, y))), a, b).a[0]


def _fnorm(t):
    """Scales a polynomial by a positive constant so that the leading coefficient is +-1."""
    if t.op == "num":
        return t
    p = topoly(t)
    l = abs(_lead({m: c for m, c in p.items() if m != ()}))
    return frompoly({m: c / l for m, c in p.items()})


def _mm(a, b, strict):
    """Comparison a<b (strict) or a<=b on floats, splitting min/max."""
    def cmp(x, y):
        return flt(x, y) if strict else fle(x, y)
    if a.op == "max":
        return band(*[cmp(x, b) for x in a.a[1:]])
    if a.op == "min":
        return bor(*[cmp(x, b) for x in a.a[1:]])
    if b.op == "max":
        return bor(*[cmp(a, x) for x in b.a[1:]])
    if b.op == "min":
        return band(*[cmp(a, x) for x in b.a[1:]])
    return None


def flt(a, b):
    """Guard a < b on reals (false if either is NaN)."""
    def f(x, y):
        r = _mm(x, y, True)
        if r is not None:
            return B(r)
        if _bad(x, y):
            return FALSE
        d = sub(y, x)
        if d.op == "num":
            return B(1 if d.a[0] > 0 else 0)
        return B(atom(mk("pos", _fnorm(d))))
    return tobool(lift(f, a, b))


def fle(a, b):
    def f(x, y):
        r = _mm(x, y, False)
        if r is not None:
            return B(r)
        if _bad(x, y):
            return FALSE
        d = sub(y, x)
        if d.op == "num":
            return B(1 if d.a[0] >= 0 else 0)
        return B(atom(mk("nneg", _fnorm(d))))
    return tobool(lift(f, a, b))


def feq(a, b):
    def f(x, y):
        if _bad(x, y):
            return FALSE
        d = sub(y, x)
        if d.op == "num":
            return B(1 if d.a[0] == 0 else 0)
        p = topoly(d)
        if _lead({m: c for m, c in p.items() if m != ()}) < 0:
            d = neg(d)
        return B(atom(mk("zero", _fnorm(d))))
    return tobool(lift(f, a, b))


def mmax(kind, *xs):
    return _mnm("max", kind, xs)


def mmin(kind, *xs):
    return _mnm("min", kind, xs)


def _mnm(op, kind, xs):
    if any(x.op == "ite" for x in xs) and all(leaves(x) < 8 for x in xs):
        return lift(lambda *y: _mnm(op, kind, y), *xs)
    flat = []
    for x in xs:
        if x.op == op and x.a[0] == kind:
            flat += x.a[1:]
        else:
            flat.append(x)
    nums = [x.a[0] for x in flat if x.op == "num"]
    rest = sorted(set(x for x in flat if x.op != "num"))
    if nums:
        k = max(nums) if op == "max" else min(nums)
        if not rest:
            return mk("num", k)
        if op == "max" and k <= 0 and kind == "i":
            rest2 = [x for x in rest]
            if all(nonneg(x) for x in rest2):
                return rest[0] if len(rest) == 1 else mk(op, kind, *rest)
        rest = sorted(rest + [mk("num", k)])
    if len(rest) == 1:
        return rest[0]
    return mk(op, kind, *rest)


def fn(name, *args):
    """Pure math function."""
    if name == "exp":
        def f(x):
            if x.op == "num" and x.a[0] == 0:
                return ONE
            if _sgn(x) < 0:
                return div(ONE, mk("fn", "exp", neg(x)))
            return mk("fn", "exp", x)
        return lift(f, args[0])
    if name == "fabs":
        def f(x):
            if x.op == "num":
                return num(abs(x.a[0]))
            if nonneg(x):
                return x
            return mk("fn", "fabs", x if _sgn(x) > 0 else neg(x))
        return lift(f, args[0])
    if name in ("isnan", "isinf", "isfinite"):
        def f(x):
            if x.op == "nan":
                return B(1 if name == "isnan" else 0)
            if x.op == "num":
                return B(1 if name == "isfinite" else 0)
            if name == "isfinite":
                return B(bnot(bor(atom(mk("fn", "isnan", x)), atom(mk("fn", "isinf", x)))))
            return B(atom(mk("fn", name, x)))
        return lift(f, args[0])
    return lift(lambda *x: mk("fn", name, *x), *args)


# ---------------------------------------------------------------- records and containers
def _distinct(e1, e2):
    """Path elements that certainly denote different sub-objects."""
    if e1[0] != e2[0]:
        return e1[0] == "." or e2[0] == "."
    if e1[0] == ".":
        return e1[1] != e2[1]
    a, b = e1[1], e2[1]
    if e1[0] == "[":
        d = sub(a, b)
        return d.op == "num" and d.a[0] != 0
    return a.op == "str" and b.op == "str" and a is not b


def keyeq(a, b):
    """Guard: two container keys are equal."""
    if a is b:
        return 1
    if a.op in ("str", "num") and b.op in ("str", "num"):
        return 0
    if a.op == "ite":
        return bite(a.a[0], keyeq(a.a[1], b), keyeq(a.a[2], b))
    if b.op == "ite":
        return bite(b.a[0], keyeq(a, b.a[1]), keyeq(a, b.a[2]))
    x, y = sorted((a, b))
    if _numeric(a) and _numeric(b):
        return eq0(sub(a, b))
    return atom(mk("keq", x, y))


def _numeric(t):
    return t.op in ("num", "poly", "idx", "size", "sum")


PROTO = {}     # message -> {field: (label, type)}


def default_of(ty):
    """Value-initialised term for a scalar / container type text."""
    ty = (ty or "").replace("const ", "").strip()
    if ty.endswith("*") or ty.startswith("std::unique_ptr") or ty.startswith("std::shared_ptr"):
        return NULL
    if ty == "bool":
        return FALSE
    if ty in ("int", "unsigned int", "long", "unsigned long", "float", "double", "char", "short",
              "unsigned short", "unsigned char", "long long", "unsigned long long", "signed char"):
        return ZERO
    if ty.startswith("std::basic_string") or ty in ("std::string", "string"):
        return mk("str", "")
    b = ty.split("<")[0]
    if b in ("std::vector", "std::list", "std::deque", "std::queue", "std::priority_queue",
             "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField"):
        return EMPTY
    if b in ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap"):
        return MEMPTY
    if b.startswith("gbdt::") and b[6:] in PROTO:
        return mk("pdefault", b[6:])
    return None


EMPTY = mk("seq0")
MEMPTY = mk("map0")
LOOPHOOK = {}   # set by interp: sel on loop values


def sel(v, e, ty=None):
    op = v.op
    if op == "upd":
        e2 = v.a[1]
        if e2 == e:
            return v.a[2]
        if _distinct(e, e2):
            return sel(v.a[0], e, ty)
        if e[0] == "[" and e2[0] == "[":
            return ite(ieq(e[1], e2[1]), v.a[2], sel(v.a[0], e, ty))
        if e[0] == "{" and e2[0] == "{":
            return ite(keyeq(e[1], e2[1]), v.a[2], sel(v.a[0], e, ty))
        return mk("sel", v, e)
    if op == "ite":
        return ite(v.a[0], sel(v.a[1], e, ty), sel(v.a[2], e, ty))
    if op == "push" and e[0] == "[":
        n = size(v.a[0])
        d = sub(e[1], n)
        if d.op == "num":
            if d.a[0] == 0:
                return v.a[1]
            return sel(v.a[0], e, ty)
        if v.a[0].op == "seq0":
            return v.a[1]
        return ite(ieq(e[1], n), v.a[1], sel(v.a[0], e, ty))
    if op == "fill" and e[0] == "[":       # vector(n, x)
        return v.a[1]
    if op == "reserve" or op == "sameelems":
        return sel(v.a[0], e, ty)
    if op == "resized" and e[0] == "[":
        # old elements kept, new ones filled
        if v.a[0].op == "seq0":
            return v.a[2]
        return ite(ilt(e[1], size(v.a[0])), sel(v.a[0], e, ty), v.a[2])
    if op == "popfront" and e[0] == "[":
        return sel(v.a[0], ("[", add(e[1], ONE)), ty)
    if op == "popback":
        return sel(v.a[0], e, ty)
    if op == "pdefault" and e[0] == ".":
        m = PROTO.get(v.a[0], {})
        f = e[1]
        if f.startswith("has_") and f[4:] in m:
            return FALSE
        if f in m:
            label, t = m[f]
            if label == "repeated":
                return EMPTY
            if t in PROTO:
                return mk("pdefault", t)
            return {"string": mk("str", ""), "bool": FALSE, "bytes": mk("str", "")}.get(t, ZERO)
    if op == "default":                    # value-initialised record of unknown structure
        d = default_of(ty)
        if d is not None:
            return d
    if op == "map0" and e[0] == "{":
        d = default_of(ty)
        if d is not None:
            return d
    if op == "rec" and e[0] == ".":
        for f, x in v.a[0]:
            if f == e[1]:
                return x
    if op == "mapseq" and e[0] == "[":
        d = sub(e[1], size(v.a[0]))
        if v.a[0].op == "seq0":
            return unbind(v.a[2], e[1])
        return ite(ge0(d), unbind(v.a[2], d), sel(v.a[0], e, ty))
    if op == "forw" and e[0] == "[":
        r = _forw_sel(v, e, ty)
        if r is not None:
            return r
    if op in ("loopval", "mu") and LOOPHOOK.get("sel"):
        r = LOOPHOOK["sel"](v, e, ty)
        if r is not None:
            return r
    t = mk("sel", v, e)
    if ty and t not in TYPE:
        TYPE[t] = ty
        if isiter(ty):
            ITER.add(t)
    return t


def isiter(ty):
    return "__normal_iterator" in ty or "RepeatedIterator" in ty or "RepeatedPtrIterator" in ty or \
        "_List_iterator" in ty or "_Rb_tree_iterator" in ty or "_Rb_tree_const_iterator" in ty or \
        "_Node_iterator" in ty or "_Node_const_iterator" in ty


def upd(v, e, x):
    if v.op == "upd":
        if v.a[1] == e:
            return upd(v.a[0], e, x)
        if _distinct(e, v.a[1]) and v.a[1] > e if e[0] == v.a[1][0] == "." else False:
            # canonical field order
            return upd(upd(v.a[0], e, x), v.a[1], v.a[2])
    if v.op == "push" and e[0] == "[":
        d = sub(e[1], size(v.a[0]))
        if d.op == "num" and d.a[0] == 0:
            return push(v.a[0], x)
    if v.op == "rec" and e[0] == ".":
        d = dict(v.a[0])
        d[e[1]] = x
        return rec(d)
    if x.op == "sel" and x.a[0] is v and x.a[1] == e:
        return v
    return mk("upd", v, e, x)


def rec(d):
    return mk("rec", tuple(sorted(d.items())))


def push(v, x):
    return mk("push", v, x)


def size(v):
    op = v.op
    if op == "upd":
        if v.a[1][0] == "[":
            return size(v.a[0])
        if v.a[1][0] == "{":
            return ite(contains(v.a[0], v.a[1][1]), size(v.a[0]), add(size(v.a[0]), ONE))
    if op == "ite":
        return ite(v.a[0], size(v.a[1]), size(v.a[2]))
    if op == "push":
        return add(size(v.a[0]), ONE)
    if op in ("seq0", "map0"):
        return ZERO
    if op == "fill":
        return v.a[0]
    if op in ("reserve", "sameelems", "sorted", "psorted"):
        return size(v.a[0])
    if op == "resized":
        return v.a[1]
    if op in ("popfront", "popback"):
        return sub(size(v.a[0]), ONE)
    if op == "mins":
        return ite(contains(v.a[0], v.a[1]), size(v.a[0]), add(size(v.a[0]), ONE))
    if op == "mdel":
        return ite(contains(v.a[0], v.a[1]), sub(size(v.a[0]), ONE), size(v.a[0]))
    if op == "str":
        return num(len(v.a[0]))
    if op == "default":
        return ZERO
    if op == "concatseq":
        return add(size(v.a[0]), size(v.a[1]))
    if op == "mapseq":
        return add(size(v.a[0]), v.a[1])
    if op == "forw":
        return size(v.a[0])
    if op == "reversed":
        return size(v.a[0])
    if op in ("loopval", "mu") and LOOPHOOK.get("size"):
        r = LOOPHOOK["size"](v)
        if r is not None:
            return r
    return mk("size", v)


def contains(v, k):
    """Guard: map/set value v has key k."""
    op = v.op
    if op == "upd" and v.a[1][0] == "{":
        return bor(keyeq(k, v.a[1][1]), contains(v.a[0], k))
    if op == "upd":
        return contains(v.a[0], k)
    if op == "mins":
        return bor(keyeq(k, v.a[1]), contains(v.a[0], k))
    if op == "mdel":
        return band(bnot(keyeq(k, v.a[1])), contains(v.a[0], k))
    if op in ("map0", "default"):
        return 0
    if op == "ite":
        return bite(v.a[0], contains(v.a[1], k), contains(v.a[2], k))
    return atom(mk("has", v, k))


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        yield from _sub(x)


def _sub(x):
    if isinstance(x, Term):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _sub(y)


def guard_of(t):
    """Guards (BDD nodes) directly inside the term."""
    if t.op in ("b", "ite"):
        return [t.a[0]]
    return []


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
        for g in guard_of(x):
            st.extend(batoms(g))
    return seen


def gsub(n):
    """All subterms of a guard."""
    seen = set()
    for x in batoms(n):
        subterms(x, seen)
    return seen


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, f, memo=None):
    """Rebuilds t bottom up; f(term) may return a replacement or None."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        r = _rebuild(t, f, memo)
    memo[t] = r
    return r


def bsubst(n, f, memo=None):
    memo = {} if memo is None else memo
    return bmap(n, lambda a: tobool(subst(a, f, memo)))


def _mapx(x, f, memo):
    if isinstance(x, Term):
        return subst(x, f, memo)
    if isinstance(x, tuple):
        return tuple(_mapx(y, f, memo) for y in x)
    return x


def _rebuild(t, f, memo):
    op = t.op
    if op in ("num", "str", "null", "nan", "unit", "sym", "idx", "bv", "own", "seq0", "map0", "pdefault"):
        return t
    S = lambda x: subst(x, f, memo)
    if op == "b":
        return B(bsubst(t.a[0], f, memo))
    if op == "ite":
        return ite(bsubst(t.a[0], f, memo), S(t.a[1]), S(t.a[2]))
    if op == "poly":
        r = []
        for m, c in t.a[0]:
            x = num(c)
            for y, e in m:
                z = S(y)
                z = z.a[0] if z.op == "grp" else z
                for _ in range(abs(e)):
                    x = mul(x, z) if e > 0 else div(x, z)
            r.append(x)
        return add(*r)
    if op == "grp":
        return mk("grp", S(t.a[0]))
    if op == "ge0":
        return B(ge0(S(t.a[0])))
    if op == "eq0":
        return B(eq0(S(t.a[0])))
    if op == "pos":
        return B(flt(ZERO, S(t.a[0])))
    if op == "nneg":
        return B(fle(ZERO, S(t.a[0])))
    if op == "zero":
        return B(feq(ZERO, S(t.a[0])))
    if op == "fn":
        return fn(t.a[0], *[S(x) for x in t.a[1:]])
    if op in ("max", "min"):
        return _mnm(op, t.a[0], [S(x) for x in t.a[1:]])
    if op == "sel":
        return sel(S(t.a[0]), _mapx(t.a[1], f, memo), TYPE.get(t))
    if op == "upd":
        return upd(S(t.a[0]), _mapx(t.a[1], f, memo), S(t.a[2]))
    if op == "size":
        return size(S(t.a[0]))
    if op == "has":
        return B(contains(S(t.a[0]), S(t.a[1])))
    if op == "keq":
        return B(keyeq(S(t.a[0]), S(t.a[1])))
    if op == "idiv":
        return idiv(S(t.a[0]), S(t.a[1]))
    if op == "imod":
        return imod(S(t.a[0]), S(t.a[1]))
    if op == "exists":
        return B(atom_exists(S(t.a[0]), S(t.a[1])))
    if op == "sum":
        return tsum(S(t.a[0]), S(t.a[1]))
    if op == "mapseq":
        return mapseq(S(t.a[0]), S(t.a[1]), S(t.a[2]))
    if op == "push":
        return push(S(t.a[0]), S(t.a[1]))
    if op == "rec":
        return rec({k: S(v) for k, v in t.a[0]})
    a = tuple(_mapx(x, f, memo) for x in t.a)
    r = mk(op, *a)
    if t in TYPE and r not in TYPE:
        TYPE[r] = TYPE[t]
    if t in ITER:
        ITER.add(r)
    return r


def lam(d, body):
    """Binder body: bv d is bound (d = -1: the index is not mentioned)."""
    return mk("lam", d, body)


def bvdepth(t):
    return max([x.a[0] for x in subterms(t) if x.op == "bv"] or [-1])


def abstract(idx, t):
    """lam over index term idx."""
    if not any(x is idx for x in subterms(t)):
        return lam(-1, t)
    d = bvdepth(t) + 1
    b = mk("bv", d)
    return lam(d, subst(t, lambda x: b if x is idx else None))


def unbind(l, val):
    """Instantiates a binder body."""
    d, body = l.a
    if d < 0:
        return body
    b = mk("bv", d)
    return subst(body, lambda x: val if x is b else x if x.op == "lam" and x.a[0] == d else None)


def atom_exists(hi, l):
    """Guard: some index below hi satisfies the guard in binder l."""
    d, body = l.a
    g = tobool(body)
    if g == 0:
        return 0
    if d < 0 and hi.op != "unit":
        return band(ilt(ZERO, hi), g)
    if d < 0:
        return g
    if hi.op == "num" and hi.a[0] <= 0:
        return 0
    return atom(mk("exists", hi, lam(d, B(g))))


def tsum(hi, l):
    d, body = l.a
    if body.op == "num" and body.a[0] == 0 or hi.op == "num" and hi.a[0] == 0:
        return ZERO
    if d < 0:
        return mul(hi, body)
    if hi.op == "num" and hi.a[0] == 1:
        return unbind(l, ZERO)
    if body.op == "poly":
        # constant factors leave the sum
        c = body.a[0][-1][1]
        if c != 1:
            return scale(mk("sum", hi, lam(d, scale(body, 1 / c))), c)
    return mk("sum", hi, l)


def mapseq(base, hi, body):
    return mk("mapseq", base, hi, body)


OWN = mk("own")


def _forw_sel(v, e, ty):
    base, hi, l = v.a
    d = l.a[0]
    if d < 0:
        return None
    key, val = l.a[1].a
    b = mk("bv", d)
    if key is b:
        s = e[1]
    else:
        p = topoly(key)
        c = p.get(((b, 1),))
        if c not in (1, -1):
            return None
        rest = sub(key, mul(num(c), b))
        if mentions(rest, lambda x: x is b):
            return None
        s = scale(sub(e[1], rest), c)
    own = sel(base, e, ty)
    x = subst(val, lambda y: s if y is b else own if y is OWN else y if y.op == "lam" and y.a[0] == d else None)
    if key is b and hi is size(base):
        return x
    return ite(band(ge0(s), ilt(s, hi)), x, own)


# ---------------------------------------------------------------- printing
def _e(e):
    if e[0] == ".":
        return "." + str(e[1])
    return e[0] + show(e[1]) + {"[": "]", "{": "}", "#": ""}.get(e[0], "")


def showroot(r):
    if r[0] == "*":
        return "*" + show(r[1])
    if r[0] == "v":
        return r[1].split("@")[0]
    if r[0] == "arg":
        return "arg%s" % r[1]
    return "_".join(str(x).split("@")[0] if not isinstance(x, tuple) else "" for x in r)


def showloc(root, path):
    return showroot(root) + "".join(_e(e) for e in path)


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 12:
        return "..."
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "num":
        return str(a[0]) if a[0].denominator < 10000 else repr(float(a[0]))
    if op == "str":
        return repr(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            x = "*".join(s(y) + ("" if e == 1 else "^%d" % e) for y, e in m)
            if not m:
                x = s(mk("num", c))
            elif c == -1:
                x = "-" + x
            elif c != 1:
                x = s(mk("num", c)) + "*" + x
            out.append(x)
        return "(" + " + ".join(out) + ")"
    if op == "b":
        return bshow(a[0], d)
    if op == "ite":
        return "(%s ? %s : %s)" % (bshow(a[0], d), s(a[1]), s(a[2]))
    if op == "sel":
        return s(a[0]) + _e(a[1])
    if op == "upd":
        return "%s[%s:=%s]" % (s(a[0]), _e(a[1]), s(a[2]))
    if op == "sym":
        return "$" + ".".join(str(x) for x in a)
    if op == "init":
        return showroot(a[0])
    if op == "addr":
        return "&" + showloc(a[0], a[1])
    if op == "begin":
        return "begin(" + showloc(a[0], a[1]) + ")"
    if op == "idx":
        return "i%s" % a[0]
    if op == "mu":
        return "mu%s:%s" % (a[0], showloc(a[1], a[2]))
    if op == "loopval":
        return "loop%s:%s" % (a[0], showloc(a[1], a[2]))
    if op == "exists":
        return "exists[<%s](%s)" % (s(a[0]), s(a[1]))
    if op == "sum":
        return "sum[<%s](%s)" % (s(a[0]), s(a[1]))
    if op == "bv":
        return "#%d" % a[0]
    if op in ("null", "nan", "unit", "seq0", "map0"):
        return op
    if op == "closure":
        return "<lambda %s>" % str(a[0]).split("lambda@")[-1]
    if op == "grp":
        return s(a[0])
    return op + "(" + ", ".join(_sx(x, d + 1) for x in a) + ")"


def _sx(x, d):
    if isinstance(x, Term):
        return show(x, d)
    if isinstance(x, tuple):
        return "<" + ",".join(_sx(y, d) for y in x) + ">"
    return str(x)


def bshow(n, d=0):
    if n == 1:
        return "true"
    if n == 0:
        return "false"
    cs = bcubes(n, 9)
    nc = bcubes(bnot(n), 9)
    if len(nc) == 1 and len(cs) > 1:
        return "!(" + " && ".join(("" if p else "!") + show(a, d + 1) for a, p in nc[0]) + ")"
    return " || ".join("(" + " && ".join(("" if p else "!") + show(a, d + 1) for a, p in c) + ")" if len(cs) > 1
                       else " && ".join(("" if p else "!") + show(a, d + 1) for a, p in c) for c in cs[:8]) + (" || ..." if len(cs) > 8 else "")
