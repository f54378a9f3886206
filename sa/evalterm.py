"""Evaluation of value-graph terms over a finite domain of leaf values (identity testing).

Two canonical terms that are not identical may still denote the same function; they are told apart
by evaluating both graphs at points of a finite domain.  Only the extracted graphs are evaluated,
never the program."""
import bisect, math, random, time
from fractions import Fraction
from .terms import *
from .terms import _nodes, _batom, bcubes
from . import terms as T

BAD = {"opaque", "undef", "own"}
FOLD = {"loopval", "mu", "loopexit", "firstexit", "trip"}
LOOPS = {}      # loop summaries (set by interp)
FLT = {"float", "double", "long double"}


class Unknown(Exception):
    pass


class Stuck(Unknown):
    """The value would be read outside a container."""
    pass


NANV = float("nan")


SECONDS = 20        # time for one search of the finite domain


class Env:
    """One assignment of values to leaves (drawn lazily, deterministic per seed)."""

    def __init__(self, seed, types=None, hook=None, ints=None, floats=None):
        self.r = random.Random(seed)
        self.leaf = {}
        self.hook = hook
        self.types = types or {}
        self.ints = ints or [0, 1, 1, 2, 2, 3, 4, 5, 7]
        self.floats = floats or [Fraction(x) for x in (0, 0, 1, -1, 1, 2)] + [Fraction(1, 2), Fraction(-3, 2), Fraction(5, 4), Fraction(-1, 3), Fraction(7, 3)]
        self.seed = seed
        self.reads = None
        self.sem = None     # optional interpretation of leaves: sem(env, key with evaluated children) -> value or None
        self.first = None   # results of abstract calls that are known without their arguments: first(term, env) -> value or None
        self.kind = {}
        self.dyn = {}       # values of loop indices and head values while a fold is evaluated
        self.folds = {}
        self.cache = False  # keep the values of containers that depend on no loop variable (sem must be fixed)
        self.closed = {}
        self.limit = 80     # iterations of a loop evaluated at most
        self.steps = 400000  # evaluation steps left

    def value(self, key, t):
        if self.reads is not None:
            self.reads.append(key)
        v = self.leaf.get(key)
        if v is None:
            v = self.leaf[key] = self.draw(key, t)
            self.kind[key] = t
        return v

    def redraw(self, key, r):
        self.folds.clear()
        t = self.kind.get(key)
        if t is None:
            if not (self.hook and self.hook(self, key, None) is not None):
                self.leaf[key] = not self.leaf[key]
            return
        sv = self.seed
        self.seed = "%s/%s" % (sv, r.random())
        self.leaf[key] = self.draw(key, t)
        self.seed = sv

    def draw(self, key, t):
        if self.hook:
            v = self.hook(self, key, t)
            if v is not None:
                return v
        ty = TYPE.get(t, "")
        r = random.Random("%s/%s" % (self.seed, repr(key)))
        if ty == "bool":
            return r.random() < 0.5
        if ty in FLT:
            return r.choice(self.floats)
        if t.op == "size" or "unsigned" in ty:
            return Fraction(r.choice(self.ints))
        if ty in ("int", "long", "short", "char"):
            return Fraction(r.choice(self.ints + [-1, -2]))
        if ty in SCALARS and ty not in FLT:
            return Fraction(r.choice(self.ints))
        return r.choice(self.floats)


def isnanv(x):
    return isinstance(x, float) and math.isnan(x)


def evg(n, env, bv):
    """Truth of guard n."""
    while n > 1:
        v, hi, lo = _nodes[n]
        try:
            n = hi if truth(_batom[v], env, bv) else lo
        except Stuck:
            # the order of the tests in a guard is not that of the program: a test which makes no sense here
            # (an element out of range) may be one the program only reaches in other circumstances
            a = evg(hi, env, bv)
            if a != evg(lo, env, bv):
                raise
            return a
    return n == 1


def truth(a, env, bv):
    op = a.op
    if op == "ge0":
        x = num_(ev(a.a[0], env, bv, "int"))
        return not isnanv(x) and x >= -TOL(x)
    if op == "eq0" or op == "zero":
        x = num_(ev(a.a[0], env, bv, "int" if op == "eq0" else "float"))
        return not isnanv(x) and (abs(x) <= TOL(x) or op == "eq0" and abs(x) == 1 << 64)
    if op == "pos":
        x = num_(ev(a.a[0], env, bv, "float"))
        return not isnanv(x) and x > TOL(x)
    if op == "nneg":
        x = num_(ev(a.a[0], env, bv, "float"))
        return not isnanv(x) and x >= -TOL(x)
    if op == "exists":
        n = num_(ev(a.a[0], env, bv)) if a.a[0].op != "unit" else 40
        d, body = a.a[1].a
        for i in range(int(min(n, 40)) if n > 0 else 0):
            if evg(tobool(body), env, bind(bv, d, i)):
                return True
        return False
    if op == "keq":
        x, y = ev(a.a[0], env, bv), ev(a.a[1], env, bv)
        return x == y
    if op == "has":
        c = ev(a.a[0], env, bv)
        k = ev(a.a[1], env, bv)
        if isinstance(c, dict):
            return hk(k) in c
        return bool(env.value(("has", hk(c), hk(k)), mk("sym", "bool")) if False else leafbool(("has", hk(c), hk(k)), env))
    if op == "nolb":
        m = ev(a.a[0], env, bv)
        if isinstance(m, MapVal):
            k = a.a[1].a[0] if a.a[1].op == "after" else a.a[1]
            k = num_(ev(k, env, bv))
            ks = m.sorted()
            return (bisect.bisect_right(ks, k) if a.a[1].op == "after" else bisect.bisect_left(ks, k)) >= len(ks)
        return leafbool(key(a, env, bv), env)
    if op == "fn":
        if a.a[0] == "isnan":
            return isnanv(ev(a.a[1], env, bv, "float"))
        if a.a[0] == "isinf":
            x = ev(a.a[1], env, bv, "float")
            return isinstance(x, float) and math.isinf(x)
    if op in BAD:
        raise Unknown(op)
    if op in FOLD:
        if op == "loopexit":
            return fold(a.a[0], None, env, bv)[1]
        return bool(ev(a, env, bv, "bool"))
    if op in ("sel", "sym", "init", "lastof"):
        x = ev(a, env, bv, "bool")
        if isinstance(x, Leaf):
            return leafbool(("truth", x), env)      # a pointer or function object that may be null
        return x != ("null",) and bool(x)
    if op == "peq":
        return ev(a.a[0], env, bv) == ev(a.a[1], env, bv)
    if op == "ret" and env.first is not None:
        v = env.first(a, env)
        if v is not None:
            return v != ("null",) and bool(v)
    return leafbool(key(a, env, bv), env)


def leafbool(k, env):
    if env.sem:
        v = env.sem(env, k)
        if v is not None:
            return v != ("null",) and bool(v)
    if env.reads is not None:
        env.reads.append(("b", k))
    v = env.leaf.get(("b", k))
    if v is None:
        v = None
        if env.hook:
            v = env.hook(env, ("b", k), None)
        if v is None:
            v = random.Random("%s/%s" % (env.seed, repr(k))).random() < 0.5
        env.leaf[("b", k)] = v
    return v


def TOL(x):
    return 0 if type(x) is Fraction or isinstance(x, (int, Fraction)) else 1e-9


def num_(x):
    if type(x) is Fraction:
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, float, Fraction)):
        return x
    raise Unknown("not a number: %r" % (x,))


def hk(x):
    if isinstance(x, list):
        return tuple(hk(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), hk(v)) for k, v in x.items()))
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def bind(bv, d, i):
    if d < 0:
        return bv
    r = dict(bv)
    r[d] = Fraction(i)
    return r


def key(t, env, bv):
    """Key of a leaf: structure with evaluated scalar children."""
    if t.op in BAD:
        raise Unknown(t.op)
    return (t.op,) + tuple(_k(x, env, bv) for x in t.a)


def _k(x, env, bv):
    if isinstance(x, Term):
        if x.op == "undef":
            return ("undef",) + tuple(str(y) for y in x.a)
        return hk(ev(x, env, bv))
    if isinstance(x, tuple):
        return tuple(_k(y, env, bv) for y in x)
    return x


class Leaf(tuple):
    """Value of a container or record leaf: identified by its key."""
    pass


class MapVal(dict):
    """Value of a map (key -> value) or set (key -> True); keys hashed by hk, the originals in kv."""

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.kv = {}
        self.ks = None      # sorted keys, when asked for

    def copy(self):
        m = MapVal(self)
        m.kv = dict(self.kv)
        m.ks = list(self.ks) if self.ks is not None else None
        return m

    def sorted(self):
        if self.ks is None:
            if any(isnanv(k) for k in self):
                raise Stuck("a missing value is a key of an ordered map")
            self.ks = sorted(self)
        return self.ks

    def put(self, k, v, keep=False):
        h = hk(k)
        if h in self:
            if keep:
                return
        elif self.ks is not None:
            if isnanv(h):
                raise Stuck("a missing value is a key of an ordered map")
            bisect.insort(self.ks, h)
        self[h] = v
        self.kv[h] = k

    def drop(self, k):
        h = hk(k)
        if h in self and self.ks is not None:
            del self.ks[bisect.bisect_left(self.ks, h)]
        self.pop(h, None)
        self.kv.pop(h, None)

    def entries(self):
        return [self.kv[h] if v is True else {"first": self.kv[h], "second": v} for h, v in self.items()]


SCALARS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "float", "double",
           "bool", "signed char", "long long", "unsigned long long"}


CLOSED = {"mapfill", "setfill", "mapseq", "filterseq", "forw", "munion", "concatseq", "entries", "reversed", "sorted", "psorted", "mins", "mdel", "push"}
DYN = {}


def direct(lid):
    """Loop variables and loops the summary of a loop mentions."""
    r = DYN.get(lid)
    if r is None:
        L = LOOPS[lid]
        seen = set()
        for q in list(L.next.values()) + list(L.init.values()) + ([L.bound] if L.bound is not None else []):
            subterms(q, seen)
        for g in (L.cond, L.early):
            if g:
                for y in batoms(g):
                    subterms(y, seen)
        r = split(seen)
        if L.next:
            DYN[lid] = r
    return r


def split(terms):
    vs, ls, bs = set(), set(), set()
    for x in terms:
        if x.op == "idx":
            vs.add(x)
        elif x.op == "bv":
            bs.add(x.a[0])
        elif x.op in FOLD and x.a[0] in LOOPS:
            ls.add(x.a[0])
            if x.op == "mu":
                vs.add(x)
                vs.add(LOOPS[x.a[0]].idx)
    return vs, ls, bs


def closure(vs, ls, bs=None):
    vs, todo, seen = set(vs), list(ls), set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        v, m, b = direct(l)
        vs |= v
        todo += m
        if bs is not None:
            bs |= b
    return vs


def outer(lid):
    """Loop variables of other loops the summary of a loop depends on."""
    r = DYN.get((lid,))
    if r is None:
        L = LOOPS[lid]
        bs = set()
        vs = closure((), (lid,), bs) - {L.idx} - set(L.mu.values())
        r = DYN[(lid,)] = (vs, bs)
    return r


def dynof(t):
    r = DYN.get(t)
    if r is None:
        vs, ls, bs = split(subterms(t))
        r = DYN[t] = (closure(vs, ls, bs), bs)
    return r


def ev(t, env, bv=None, want=None):
    bv = bv or {}
    op, a = t.op, t.a
    env.steps -= 1
    if env.steps < 0:
        raise Unknown("evaluation budget")
    if op in CLOSED and env.reads is None and env.cache:
        r = env.closed.get(t)
        if r is not None:
            return r
        vs, bs = dynof(t)
        if not any(b in bv for b in bs) and not any(v in env.dyn for v in vs):
            r = env.closed[t] = ev2(t, op, a, env, bv, want)
            return r
    if op == "init" and env.cache and (a[0][0] == "this" or a[0][0] == "arg" or a[0][0] == "*" and a[0][1].op == "sym" and a[0][1] not in env.dyn):
        r = env.closed.get(t)
        if r is None:
            r = ev2(t, op, a, env, bv, want)
            if not isinstance(r, Leaf):
                env.closed[t] = r
        return r
    return ev2(t, op, a, env, bv, want)


def ev2(t, op, a, env, bv, want):
    if op == "num":
        return a[0]
    if op == "poly":
        s = Fraction(0)
        for m, c in a[0]:
            x = c
            for y, e in m:
                v = num_(ev(y, env, bv, "float"))
                if e < 0:
                    if v == 0:
                        return NANV
                    v = 1 / v if not isinstance(v, int) else Fraction(1, v)
                for _ in range(abs(e)):
                    x = mulx(x, v)
            s = s + x
        return s
    if op == "b":
        return evg(a[0], env, bv)
    if op == "ite":
        return ev(a[1] if evg(a[0], env, bv) else a[2], env, bv, want)
    if op == "grp":
        return ev(a[0], env, bv, want)
    if op == "val":
        return VALS[a[0]]
    if op == "bv":
        if a[0] not in bv:
            raise Unknown("free bv")
        return bv[a[0]]
    if op in ("str", "nan", "null", "unit"):
        return {"str": lambda: ("str", a[0]), "nan": lambda: NANV, "null": lambda: ("null",), "unit": lambda: ("unit",)}[op]()
    if op in BAD:
        raise Unknown(op)
    if op in FOLD:
        if t in env.dyn:
            return env.dyn[t]
        if op == "firstexit":
            st, out, i = fold(a[0], None, env, bv)
            return Fraction(i)
        if op == "loopexit":
            return fold(a[0], None, env, bv)[1]
        if op == "trip":
            st, out, i = fold(a[0], None, env, bv)
            if out:
                raise Unknown("trip count of a loop left early")
            return Fraction(i)
        ix = LOOPS[a[0]].idx
        if op == "mu" and ix in env.dyn:
            return fold(a[0], (a[1], a[2]), env, bv, stop=int(env.dyn[ix]))[0][(a[1], a[2])]
        st, out, i = fold(a[0], (a[1], a[2]), env, bv)
        return st[(a[1], a[2])]
    if op == "idx":
        if t in env.dyn:
            return env.dyn[t]
        TYPE[t] = "unsigned int"
        return env.value(("idx", a[0]), t)
    if op in ("max", "min"):
        xs = [num_(ev(x, env, bv, "float")) for x in a[1:]]
        if any(isnanv(x) for x in xs):
            return NANV
        return max(xs) if op == "max" else min(xs)
    if op == "idiv" or op == "imod":
        x, y = num_(ev(a[0], env, bv, "int")), num_(ev(a[1], env, bv, "int"))
        if y == 0:
            return NANV
        q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
        return Fraction(q) if op == "idiv" else x - q * y
    if op == "fn":
        f = a[0]
        if f in ("exp", "log", "fabs", "sqrt", "pow", "log1p", "expm1", "floor", "ceil", "log2", "toint", "narrow"):
            xs = [num_(ev(x, env, bv, "float")) for x in a[1:]]
            try:
                if f == "exp":
                    return math.exp(xs[0])
                if f == "log":
                    return math.log(xs[0]) if xs[0] > 0 else NANV
                if f == "log2":
                    return math.log2(xs[0]) if xs[0] > 0 else NANV
                if f == "fabs":
                    return abs(xs[0])
                if f == "sqrt":
                    return math.sqrt(xs[0]) if xs[0] >= 0 else NANV
                if f == "pow":
                    return float(xs[0]) ** float(xs[1])
                if f == "log1p":
                    return math.log1p(xs[0])
                if f == "expm1":
                    return math.expm1(xs[0])
                if f == "floor":
                    return Fraction(math.floor(xs[0]))
                if f == "ceil":
                    return Fraction(math.ceil(xs[0]))
                if f == "toint":
                    return Fraction(math.trunc(xs[0]))
                if f == "narrow":
                    return xs[1] % (2 ** int(xs[0]))
            except (OverflowError, ValueError, ZeroDivisionError):
                return NANV
    if op == "sum":
        n = num_(ev(a[0], env, bv, "int"))
        d, body = a[1].a
        s = Fraction(0)
        for i in range(int(min(n, 60)) if n > 0 else 0):
            s = s + num_(ev(body, env, bind(bv, d, i), "float"))
        return s
    if op == "lastof":
        n = num_(ev(a[1], env, bv, "int"))
        d, body = a[2].a
        last = None
        for i in range(int(min(n, 60)) if n > 0 else 0):
            q = bind(bv or {}, d, i)
            if evg(tobool(body.a[0]), env, q):
                last = (body.a[1], q)
        return ev(a[0], env, bv, want) if last is None else ev(last[0], env, last[1], want)
    if op == "first":
        n = num_(ev(a[0], env, bv, "int")) if a[0].op != "unit" else None
        d, body = a[1].a
        for i in range(200 if n is None else max(0, int(n))):
            if evg(tobool(body), env, bind(bv, d, i)):
                return Fraction(i)
        if n is None:
            raise Unknown("unbounded first")
        return Fraction(max(0, int(n)))
    if op == "rec":
        return {f: ev(x, env, bv) for f, x in a[0]}
    if op == "seq0":
        return []
    if op == "map0":
        return MapVal()
    if op in ("mins", "munion", "setfill", "mapfill", "mdel") or op == "upd" and a[1][0] == "{":
        m = ev(a[0], env, bv)
        if not isinstance(m, MapVal):
            return leafvalue(key(t, env, bv), t, env, want)
        m = m.copy()
        if op == "mins":
            m.put(ev(a[1], env, bv), True, keep=True)
        elif op == "mdel":
            m.drop(ev(a[1], env, bv))
        elif op == "upd":
            m.put(ev(a[1][1], env, bv), ev(a[2], env, bv))
        elif op == "munion":
            for x in lst(a[1], env, bv):
                m.put(x, True, keep=True)
        else:
            n = num_(ev(a[1], env, bv, "int"))
            d, body = a[2].a
            for i in range(int(n) if n > 0 else 0):
                b2 = bind(bv, d, i)
                if op == "setfill":
                    m.put(ev(body, env, b2), True, keep=True)
                else:
                    m.put(ev(body.a[0], env, b2), ev(body.a[1], env, b2))
        return m
    if op == "entries":
        m = ev(a[0], env, bv)
        if not isinstance(m, MapVal):
            raise Unknown("entries of an unknown map")
        return m.entries()
    if op == "push":
        return lst(a[0], env, bv) + [ev(a[1], env, bv)]
    if op == "mapseq":
        n = num_(ev(a[1], env, bv, "int"))
        d, body = a[2].a
        return lst(a[0], env, bv) + [ev(body, env, bind(bv, d, i)) for i in range(int(n) if n > 0 else 0)]
    if op == "filterseq":
        n = num_(ev(a[1], env, bv, "int"))
        d, body = a[2].a
        out = list(lst(a[0], env, bv))
        for i in range(int(n) if n > 0 else 0):
            b2 = bind(bv, d, i)
            if evg(tobool(body.a[0]), env, b2):
                out.append(ev(body.a[1], env, b2))
        return out
    if op == "fill":
        n = num_(ev(a[0], env, bv, "int"))
        x = ev(a[1], env, bv)
        return [x for _ in range(int(n))]
    if op == "reversed":
        return lst(a[0], env, bv)[::-1]
    if op == "concatseq":
        return lst(a[0], env, bv) + lst(a[1], env, bv)
    if op == "prefix":
        return lst(a[0], env, bv)[:int(num_(ev(a[1], env, bv)))]
    if op == "popfrontn":
        return lst(a[0], env, bv)[int(num_(ev(a[1], env, bv))):]
    if op == "lbkey":
        m = ev(a[0], env, bv)
        if isinstance(m, MapVal):
            k = a[1].a[0] if a[1].op == "after" else a[1]
            k = num_(ev(k, env, bv))
            ks = m.sorted()
            i = bisect.bisect_right(ks, k) if a[1].op == "after" else bisect.bisect_left(ks, k)
            if i >= len(ks):
                raise Stuck("past the last key")
            return Fraction(ks[i])
    if op == "keyat":
        m = ev(a[0], env, bv)
        if isinstance(m, MapVal):
            i = num_(ev(a[1], env, bv, "int"))
            ks = m.sorted()
            if not 0 <= i < len(ks):
                raise Stuck("entry %s of a map with %d entries" % (i, len(ks)))
            return m.kv[ks[int(i)]]
    if op == "mbegin":
        return Fraction(0)
    if op == "lowb":
        m = ev(a[3], env, bv)
        if isinstance(m, MapVal):
            k = a[2].a[0] if a[2].op == "after" else a[2]
            k = num_(ev(k, env, bv))
            return Fraction(bisect.bisect_right(m.sorted(), k) if a[2].op == "after" else bisect.bisect_left(m.sorted(), k))
    if op == "sorted":
        return sortval(lst(a[0], env, bv), tobool(a[1]), env, bv)
    if op == "psorted":
        xs = lst(a[0], env, bv)
        lo, hi = int(num_(ev(a[1], env, bv, "int"))), int(num_(ev(a[2], env, bv, "int")))
        if not 0 <= lo <= hi <= len(xs):
            raise Stuck("sorting positions %s to %s of %s" % (lo, hi, len(xs)))
        return xs[:lo] + sortval(xs[lo:hi], tobool(a[3]), env, bv) + xs[hi:]
    if op == "cat":
        xs = [ev(x, env, bv) for x in a]
        if all(isinstance(x, tuple) and x and x[0] == "str" for x in xs):
            return ("str", "".join(x[1] for x in xs))
        return Leaf(("cat",) + tuple(hk(x) for x in xs))
    if op == "fmt":
        return fmtval([ev(x, env, bv) for x in a])
    if op == "popfront":
        return lst(a[0], env, bv)[1:]
    if op == "popback":
        return lst(a[0], env, bv)[:-1]
    if op == "resized":
        x = lst(a[0], env, bv)
        n = int(num_(ev(a[1], env, bv)))
        return (x + [ev(a[2], env, bv)] * n)[:n]
    if op == "size":
        v = ev(a[0], env, bv)
        if isinstance(v, (list, dict)) or hasattr(v, "arg"):
            return Fraction(len(v))
        if isinstance(v, tuple) and v and v[0] == "str":
            return Fraction(len(v[1]))
        return env.value(("size", hk(v)), t)
    if op == "upd" and a[1][0] == ".":
        v = ev(a[0], env, bv)
        x = ev(a[2], env, bv)
        if isinstance(v, dict):
            v = dict(v)
            v[a[1][1]] = x
            return v
        return Leaf(("upd", hk(v), a[1][1], hk(x)))
    if op == "upd" and a[1][0] == "[":
        v = ev(a[0], env, bv)
        i = num_(ev(a[1][1], env, bv))
        x = ev(a[2], env, bv)
        if isinstance(v, list):
            v = list(v)
            if not 0 <= i < len(v):
                raise Stuck("index out of range")
            v[int(i)] = x
            return v
        return Leaf(("upd", hk(v), int(i), hk(x)))
    if op == "forw":
        v = list(lst(a[0], env, bv))
        n = num_(ev(a[1], env, bv, "int"))
        d, body = a[2].a
        rec = OWN in subterms(body.a[1], set())
        for i in range(int(n) if n > 0 else 0):
            b2 = bind(bv, d, i)
            k = int(num_(ev(body.a[0], env, b2)))
            if not 0 <= k < len(v):
                raise Stuck("index out of range")
            if not rec:
                v[k] = ev(body.a[1], env, b2)
                continue
            old = v[k]
            own = liftval(old)
            v[k] = ev(subst(body.a[1], lambda y: own if y is OWN else None), env, b2)
        return v
    if op == "sel":
        v = ev(a[0], env, bv)
        e = a[1]
        if e[0] == ".":
            if isinstance(v, dict) and e[1] in v:
                return v[e[1]]
            k = ("sel", hk(v), e[1])
        else:
            i = ev(e[1], env, bv)
            if isinstance(v, list):
                if not 0 <= num_(i) < len(v):
                    raise Stuck("index out of range")
                return v[int(i)]
            if isinstance(v, dict) and hk(i) in v:
                return v[hk(i)]
            if isinstance(v, MapVal) and e[0] == "{":
                ty = TYPE.get(t, want or "")
                if ty in SCALARS:
                    return False if ty == "bool" else Fraction(0)
                if "string" in ty:
                    return ("str", "")
            k = ("sel", hk(v), e[0], hk(i))
        return leafvalue(k, t, env, want)
    if op == "sym" and t in env.dyn:
        return env.dyn[t]
    if op == "ret" and env.first is not None:
        v = env.first(t, env)
        if v is not None:
            return v
    if op in ("sym", "init", "ret", "draw", "out", "code", "default", "status", "addr", "icall", "lastof", "qtop", "sorted", "ctor"):
        return leafvalue(key(t, env, bv), t, env, want)
    return leafvalue(key(t, env, bv), t, env, want)


def sortval(xs, less, env, bv):
    """A sequence in the order of its comparator (a guard over the symbols x and y)."""
    import functools
    sx, sy = mk("sym", "x"), mk("sym", "y")
    saved = {s: env.dyn.get(s) for s in (sx, sy)}

    def lt(p, q):
        env.dyn[sx], env.dyn[sy] = p, q
        return evg(less, env, bv)
    try:
        return sorted(xs, key=functools.cmp_to_key(lambda p, q: -1 if lt(p, q) else 1 if lt(q, p) else 0))
    finally:
        for s, v in saved.items():
            if v is None:
                env.dyn.pop(s, None)
            else:
                env.dyn[s] = v


def text(x):
    """What printing a value gives."""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "str":
        return x[1]
    if isinstance(x, Fraction) or isinstance(x, (int, float)):
        return str(x)
    raise Unknown("text of %s" % (str(x)[:60],))


def fmtval(xs):
    import re as _re
    if not xs or not (isinstance(xs[0], tuple) and xs[0][0] == "str"):
        raise Unknown("format")
    n = [0]

    def put(m):
        if m.group(0) in ("{{", "}}"):
            return m.group(0)[0]
        k = m.group(1)
        if k == "":
            k = n[0]
            n[0] += 1
        if int(k) + 1 >= len(xs):
            raise Unknown("format argument")
        return text(xs[int(k) + 1])
    return ("str", _re.sub(r"\{\{|\}\}|\{(\d*)(?::[^}]*)?\}", put, xs[0][1]))


def loopdeps(lid, k):
    """Locations of loop lid that location k (None: its exit tests) is computed from."""
    L = LOOPS[lid]
    memo = L.__dict__.setdefault("deps", {})
    if k in memo:
        return memo[k]
    out = set()
    todo = [] if k is None else [k]
    seen = set()

    def scan(t):
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("mu", "loopval"):
                if x.a[0] == lid:
                    todo.append((x.a[1], x.a[2]))
                elif x.op == "loopval" or x.a[0] in LOOPS:
                    M = LOOPS[x.a[0]]
                    if L.id in ancestors(M):
                        kk = (x.a[1], x.a[2])
                        for q in (M.next.get(kk), M.init.get(kk)):
                            if q is not None:
                                scan(q)
                        scan(B(M.cond))
                        scan(B(M.early))
                        if M.bound is not None:
                            scan(M.bound)
            elif x.op in ("trip", "firstexit", "loopexit") and x.a[0] != lid:
                M = LOOPS[x.a[0]]
                scan(B(M.cond))
                scan(B(M.early))
    if L.bound is None or L.bound.op == "trip":
        scan(B(L.cond))
    if L.early:
        scan(B(L.early))
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        nx = L.next.get(x)
        if nx is None:
            raise Unknown("loop location")
        scan(nx)
    memo[k] = out
    return out


def ancestors(M):
    out = []
    while M is not None and M.parent is not None:
        out.append(M.parent)
        M = LOOPS.get(M.parent)
    return out


def fold(lid, k, env, bv, limit=80, stop=None):
    """(state, left early?, iterations) of a loop summary applied from its initial state."""
    L = LOOPS[lid]
    out, bs = outer(lid)
    ck = (lid, k, stop, tuple(sorted((id(x), repr(hk(v))) for x, v in env.dyn.items() if x in out)), tuple(sorted((b, x) for b, x in (bv or {}).items() if b in bs)))
    r = env.folds.get(ck)
    if r is not None:
        return r
    deps = loopdeps(lid, k)
    st = {x: ev(L.init[x], env, bv) for x in deps}
    lin = {x for x in linear(L, k, deps) if type(st[x]) in (list, MapVal)}
    for x in lin:
        st[x] = st[x].copy()
    n = None
    if L.bound is not None and L.bound.op != "trip":
        n = num_(ev(L.bound, env, bv, "int"))
    saved = dict(env.dyn)
    i = 0
    early = False
    try:
        while True:
            if n is not None and i >= n or i == stop:
                break
            if i > max(limit, env.limit):
                raise Unknown("long loop")
            env.dyn = dict(saved)
            env.dyn[L.idx] = Fraction(i)
            for x in deps:
                env.dyn[L.mu[x]] = st[x]
            if n is None and not evg(L.cond, env, bv):
                break
            if L.early and evg(L.early, env, bv):
                early = True
                break
            todo = []
            nst = {}
            for x in deps:
                ops = []
                if x in lin and inplace(L.next[x], L.mu[x], env, bv, ops):
                    nst[x] = st[x]
                    todo.append((st[x], ops))
                else:
                    nst[x] = ev(L.next[x], env, bv)
                    if x in lin and nst[x] is st[x]:
                        nst[x] = nst[x].copy()
            for v, ops in todo:
                for f, *xs in ops:
                    f(v, *xs)
            st = nst
            i += 1
    finally:
        env.dyn = saved
    r = (st, early, i)
    if env.reads is None:
        env.folds[ck] = r
    return r


READS = {"size", "sel", "has", "keyat", "lbkey", "nolb"}
LINEAR = {}


def linear(L, k, deps):
    """Loop-carried containers whose old value is only read in place, so that the fold may update them in place."""
    r = LINEAR.get((L.id, k))
    if r is not None:
        return r
    mus = {L.mu[x]: x for x in deps}
    bad = set()
    seen = set()

    def use(t):
        if t in mus:
            bad.add(mus[t])
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for i, y in enumerate(children(x)):
                if y in mus and not (i == 0 and x.op in READS):
                    bad.add(mus[y])
                st.append(y)
            for g in guard_of(x):
                gs(g)
            if x.op in FOLD and x not in mus and x.a[0] in LOOPS and x.a[0] != L.id:
                M = LOOPS[x.a[0]]
                for q in list(M.next.values()) + list(M.init.values()):
                    use(q)
                gs(M.cond)
                if M.early:
                    gs(M.early)
                if M.bound is not None:
                    use(M.bound)

    def gs(g):
        for y in batoms(g):
            if y in mus:
                bad.add(mus[y])
            use(y)

    def spine(t, m):
        if t is m:
            return
        if t.op == "ite":
            gs(t.a[0])
            spine(t.a[1], m)
            spine(t.a[2], m)
        elif t.op in ("push", "mins", "mdel"):
            spine(t.a[0], m)
            use(t.a[1])
        elif t.op == "upd" and t.a[1][0] in "{[":
            spine(t.a[0], m)
            use(t.a[1][1])
            use(t.a[2])
        else:
            use(t)
    gs(L.cond)
    if L.early:
        gs(L.early)
    for x in deps:
        spine(L.next[x], L.mu[x])
    r = LINEAR[(L.id, k)] = {x for x in deps if x not in bad}
    return r


def setat(v, i, x):
    if not 0 <= i < len(v):
        raise Stuck("index out of range")
    v[int(i)] = x


def inplace(t, m, env, bv, ops):
    """Updates that turn the value of m into the value of t, with their operands evaluated; False if t is not of that form."""
    if t is m:
        return True
    if t.op == "ite":
        return inplace(t.a[1] if evg(t.a[0], env, bv) else t.a[2], m, env, bv, ops)
    v = env.dyn[m]
    if t.op == "push" and type(v) is list:
        if not inplace(t.a[0], m, env, bv, ops):
            return False
        ops.append((list.append, ev(t.a[1], env, bv)))
        return True
    if t.op in ("mins", "mdel") and type(v) is MapVal:
        if not inplace(t.a[0], m, env, bv, ops):
            return False
        ops.append((MapVal.put, ev(t.a[1], env, bv), True, True) if t.op == "mins" else (MapVal.drop, ev(t.a[1], env, bv)))
        return True
    if t.op == "upd" and t.a[1][0] == ("{" if type(v) is MapVal else "["):
        if not inplace(t.a[0], m, env, bv, ops):
            return False
        i = ev(t.a[1][1], env, bv)
        ops.append((MapVal.put if type(v) is MapVal else setat, i if type(v) is MapVal else num_(i), ev(t.a[2], env, bv)))
        return True
    return False


def liftval(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, dict):
        return rec({k: liftval(x) for k, x in v.items()})
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "str":
        return mk("str", v[1])
    VALS.append(v)
    return mk("val", len(VALS) - 1)


VALS = []       # values lifted back into terms


def leafvalue(k, t, env, want):
    if env.sem:
        v = env.sem(env, k)
        if v is not None:
            return v
    ty = TYPE.get(t)
    if want and ty and ty not in SCALARS and (t in T.ITER or T.isiter(ty)):
        ty = None
        want = "int"
    if ty in SCALARS or ty is None and want:
        if ty is None and want:
            tt = mk("sym", "typed", want)
            TYPE[tt] = {"bool": "bool", "int": "int", "float": "float"}[want]
            return env.value(k, tt)
        return env.value(k, t)
    if t.op == "init" and len(t.a[0]) == 1:
        pass
    return Leaf(k)


def lst(t, env, bv):
    v = ev(t, env, bv)
    if not isinstance(v, list):
        raise Unknown("not a list")
    return v


def mulx(x, v):
    return x * v


PRIMARY = {"sym", "init", "ret", "sel", "out", "draw", "code", "default", "addr", "icall", "str", "null", "unit"}


def same(x, y):
    """True / False / None (not comparable: containers known only by their construction)."""
    if isinstance(x, Leaf) or isinstance(y, Leaf):
        if x == y:
            return True
        for z in (x, y):
            if isinstance(z, Leaf) and z[0] not in PRIMARY or isinstance(z, (list, dict)):
                return None
        return False
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return False
        r = [same(p, q) for p, q in zip(x, y)]
        return False if False in r else None if None in r else True
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            return None
        r = [same(x[k], y[k]) for k in x]
        return False if False in r else None if None in r else True
    if isinstance(x, (int, float, Fraction, bool)) and isinstance(y, (int, float, Fraction, bool)):
        if isnanv(x) or isnanv(y):
            return isnanv(x) and isnanv(y)
        if isinstance(x, bool) != isinstance(y, bool):
            return None
        return bool(abs(x - y) <= 1e-7 * max(1, abs(x), abs(y)))
    if isinstance(x, (list, dict)) or isinstance(y, (list, dict)):
        return None
    return x == y


def guarded(t, g=1, out=None, limit=200):
    """Leaves of the top-level conditional structure with their guards."""
    out = [] if out is None else out
    if g == 0 or len(out) > limit:
        return out
    if t.op == "ite":
        guarded(t.a[1], band(g, t.a[0]), out, limit)
        guarded(t.a[2], band(g, bnot(t.a[0])), out, limit)
    else:
        out.append((g, t))
    return out


def solutions(g, n, seed=1, hook=None, ints=None, floats=None, flips=60, cubes=40):
    """Points of the finite domain satisfying guard g, found cube by cube with local search.
    Yields Env; the last item yielded may be the string 'unknown'."""
    if g == 0:
        return
    cs = [[]] if g == 1 else bcubes(g, cubes)
    unknown = False
    found = 0
    end = time.time() + SECONDS
    rounds = max(1, -(-n // max(1, len(cs))))
    for rnd in range(rounds + 2):
        for ci, cube in enumerate(cs):
            if found >= n:
                return
            if time.time() > end:
                if not found:
                    yield "unknown:time budget"
                return
            env = Env("%s/%s/%s" % (seed, rnd, ci), hook=hook, ints=ints, floats=floats)
            r = random.Random("w%s/%s/%s" % (seed, rnd, ci))
            try:
                for step in range(flips):
                    bad = None
                    lits = list(cube)
                    r.shuffle(lits)
                    for at, pol in lits:
                        env.reads = []
                        if truth(at, env, {}) != pol:
                            bad = list(dict.fromkeys(env.reads))
                            break
                    if bad is None:
                        env.reads = None
                        yield env
                        found += 1
                        break
                    if not bad:
                        break
                    k = r.choice(bad)
                    env.redraw(k, r)
            except Unknown as u:
                unknown = str(u)
    if unknown is not False and not found:
        yield "unknown:" + unknown


def descend(v1, v2, g, n, kw):
    """Element-wise comparison of two sequences built in the same way."""
    if v1.op == v2.op and v1.op in ("mapseq", "filterseq") and v1.a[0] is v2.a[0] and v1.a[1] is v2.a[1]:
        x = mk("sym", "elem", bvdepth(v1.a[2]) + bvdepth(v2.a[2]))
        TYPE[x] = "unsigned int"
        b1, b2 = unbind(v1.a[2], x), unbind(v2.a[2], x)
        inside = band(g, ilt(x, v1.a[1]))
        if v1.op == "mapseq":
            return compare(b1, b2, n, assume=inside, **kw)
        r, info = compare(b1.a[0], b2.a[0], n, assume=inside, **kw)
        if r != "same":
            return r, info
        return compare(b1.a[1], b2.a[1], n, assume=band(inside, tobool(b1.a[0])), **kw)
    return "unknown", "shape"


def enrich(ts, ints, floats):
    """Domain values next to the constants occurring in the terms."""
    if ints is None and floats is None:
        ints, floats = [0, 1, 1, 2, 2, 3, 4, 5, 7], [Fraction(x) for x in (0, 0, 1, -1, 1, 2)] + [
            Fraction(1, 2), Fraction(-3, 2), Fraction(5, 4), Fraction(-1, 3), Fraction(7, 3)]
    elif ints is None:
        ints = [0, 1, 1, 2, 2, 3, 4, 5, 7]
    elif floats is None:
        floats = [Fraction(x) for x in (0, 0, 1, -1, 1, 2)] + [Fraction(1, 2), Fraction(-3, 2), Fraction(5, 4), Fraction(-1, 3), Fraction(7, 3)]
    cs = set()
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "num":
                cs.add(x.a[0])
            elif x.op == "poly":
                d = dict(x.a[0])
                for c in d.values():
                    cs.add(abs(c))
            if len(cs) > 40:
                break
    cs = sorted(c for c in cs if abs(c) not in (0, 1, 2) and abs(c) < 10 ** 7)[:8]
    ni = [int(c) + k for c in cs if Fraction(c).denominator == 1 and 0 < c <= 64 for k in (-1, 0, 1)]
    nf = [Fraction(c) + k for c in cs for k in (0, Fraction(1, 1000), Fraction(-1, 1000))]
    return list(ints) + ni[:9], list(floats) + nf[:18]


def search(g, n=4, hook=None, ints=None, floats=None, seed=1):
    """Looks for a point satisfying guard g: ("point", env) | ("none", 0) | ("unknown", why)."""
    why = None
    ints, floats = enrich((B(g),), ints, floats)
    try:
        for env in solutions(g, 1, seed, hook, ints, floats, cubes=60):
            if isinstance(env, str):
                why = env
            else:
                return "point", env
    except RecursionError:
        return "unknown", "recursion"
    return ("unknown", why) if why else ("none", 0)


def compare(t1, t2, n=40, hook=None, assume=1, ints=None, floats=None, seed=1):
    """('same', None) | ('differ', (env, x, y)) | ('unknown', why), assuming guard `assume`."""
    if t1 is t2:
        return "same", None
    ints, floats = enrich((t1, t2), ints, floats)
    kw = dict(hook=hook, ints=ints, floats=floats, seed=seed)
    if t1.op == "b" and t2.op == "b":
        x = bor(band(t1.a[0], bnot(t2.a[0])), band(bnot(t1.a[0]), t2.a[0]))
        r, info = search(band(x, assume), **kw)
        if r == "point":
            try:
                return "differ", (info, evg(t1.a[0], info, {}), evg(t2.a[0], info, {}))
            except Unknown as u:
                return "unknown", str(u)
        return ("same", None) if r == "none" else (r, info)
    l1, l2 = guarded(t1, assume), guarded(t2)
    pairs = [(band(g1, g2), v1, v2) for g1, v1 in l1 for g2, v2 in l2 if v1 is not v2 and band(g1, g2) != 0]
    if len(pairs) > 400:
        return "unknown", "too many cases"
    why = None
    for g, v1, v2 in pairs:
        r, info = descend(v1, v2, g, n, kw)
        if r == "differ":
            return r, info
        if r == "same":
            continue
        tried = 0
        for env in solutions(g, n if len(pairs) < 20 else 8, **kw):
            if isinstance(env, str):
                why = env
                continue
            try:
                x, y = ev(v1, env), ev(v2, env)
            except Unknown as u:
                why = str(u)
                continue
            except RecursionError:
                return "unknown", "recursion"
            d = same(x, y)
            if d is None:
                why = "containers of unknown content"
            elif not d:
                return "differ", (env, x, y)
            else:
                tried += 1
        if tried:
            continue
        if why:
            return "unknown", why
    return "same", None


# ---------------------------------------------------------------- IEEE interpretation
INF = float("inf")


def ieee(t, env):
    """Value of a raw expression graph in double arithmetic (env: leaf term -> float)."""
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == "num":
        return float(a[0])
    if op == "b":
        return 1.0 if ieeeg(a[0], env) else 0.0
    if op == "nan":
        return NANV
    if op == "ite":
        return ieee(a[1] if ieeeg(a[0], env) else a[2], env)
    if op == "poly":
        s = 0.0
        for m, c in a[0]:
            x = float(c)
            for y, e in m:
                v = ieee(y, env)
                for _ in range(abs(e)):
                    x = fop("*" if e > 0 else "/", x, v)
            s = fop("+", s, x)
        return s
    if op == "fop":
        return fop(a[0], ieee(a[1], env), ieee(a[2], env))
    if op in ("max", "min"):
        xs = [ieee(x, env) for x in a if isinstance(x, Term)]
        return max(xs) if op == "max" else min(xs)
    if op == "fn":
        xs = [ieee(x, env) for x in a[1:]]
        x = xs[0]
        if any(y != y for y in xs):
            return NANV
        try:
            if a[0] == "exp":
                return math.exp(x) if x < 709.7 else INF
            if a[0] == "expm1":
                return math.expm1(x) if x < 709.7 else INF
            if a[0] == "log":
                return NANV if x < 0 else -INF if x == 0 else math.log(x)
            if a[0] == "log1p":
                return NANV if x < -1 else -INF if x == -1 else math.log1p(x)
            if a[0] == "fabs":
                return abs(x)
            if a[0] == "sqrt":
                return NANV if x < 0 else math.sqrt(x)
            if a[0] == "tanh":
                return math.tanh(x)
            if a[0] == "pow":
                return math.pow(*xs)
        except OverflowError:
            return INF
    raise Unknown(op)


def fop(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if y == 0:
        return NANV if x == 0 or x != x else math.copysign(INF, x) * math.copysign(1.0, y)
    return x / y


def ieeeg(n, env):
    while n > 1:
        v, hi, lo = _nodes[n]
        at = _batom[v]
        x = ieee(at.a[1] if at.op == "fn" else at.a[0], env)
        if at.op == "fn" and at.a[0] == "isnan":
            r = x != x
        elif at.op == "fn" and at.a[0] == "isinf":
            r = abs(x) == INF
        elif at.op in ("nneg", "ge0"):
            r = x >= 0
        elif at.op == "pos":
            r = x > 0
        elif at.op in ("zero", "eq0"):
            r = x == 0
        else:
            raise Unknown(at.op)
        n = hi if r else lo
    return n == 1
