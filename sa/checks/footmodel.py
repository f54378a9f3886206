"""Footprints: which memory the tasks of a pool, and the thread that owns the pool, read and write, under interpretations of the inputs."""
from ..core import *
from ..callgraph import graph, reach
from .recmodel import *
from ..callgraph import recursive
from .c10 import Null
from .c26 import derived
from .c36 import unhk
from . import colmodel
from ..terms import subterms
from .lossmodel import Groups

ROWS = 6


def canon(t):
    t = t.replace("std::", "").replace("__cxx11::", "").replace("const ", "").replace(" const", "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def targs(t):
    """Template name and arguments of a type."""
    if "<" not in t or not t.endswith(">"):
        return t, []
    n, rest = t.split("<", 1)
    rest = rest[:-1]
    out, d, cur = [], 0, ""
    for ch in rest:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return n, out


INTS = {"int", "unsigned int", "uint", "uint32", "int32", "int32_t", "uint32_t", "long", "unsigned long", "uint64", "int64", "size_t", "uint64_t", "int64_t", "unsigned char", "short", "char", "__size_t"}


def pval(x):
    """Plain (hashable) form of a value."""
    return EV.hk(x)


def plain(x):
    """Inverse of hashing a value, as far as records and lists go."""
    if type(x) is tuple and not x:
        return []
    if isinstance(x, tuple) and x and not isinstance(x, EV.Leaf):
        if all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) and y[0] not in ("str", "ptr", "fun") for y in x):
            return {y[0]: plain(y[1]) for y in x}
        if not isinstance(x[0], str):
            return [plain(y) for y in x]
    return x


class World:
    """Type-driven input values: containers of disjoint elements, distinct pointers, work divisions that partition."""

    def __init__(self, c, tag, G=None):
        self.c, self.tag, self.G = c, tag, G
        self.r = random.Random(tag)
        self.fail = 0
        self.mem = {}          # slice element number -> row
        self.ptrs = {}
        self.sizes = {}

    def part(self, n, name):
        r = random.Random("%s/%s" % (self.tag, name))
        k = r.randint(1, 3)
        cuts = [0] + sorted(r.randint(0, n) for _ in range(k)) + [n]
        return list(zip(cuts, cuts[1:]))

    def region(self, name, rows=None):
        """Memory behind a slice: ROWS distinct row numbers."""
        if name in self.sizes:
            return self.sizes[name]
        if rows is not None:
            base = self.sizes[name] = 1000 * (1 + len(self.sizes))
            for i, x in enumerate(rows):
                self.mem[base + i] = int(x)
            return base
        r = random.Random("%s/%s" % (self.tag, name))
        base = self.sizes[name] = 1000 * (1 + len(self.sizes))
        rows = list(range(ROWS))
        r.shuffle(rows)
        for i, x in enumerate(rows):
            self.mem[base + i] = x
        return base

    def gen(self, t, name, depth=0):
        t = canon(t)
        if t.endswith("*"):
            p = ("ptr", name)
            self.ptrs[p] = t[:-1].strip()
            return p
        if t in INTS:
            return F(random.Random("%s/%s" % (self.tag, name)).randint(1, 3))
        if t in ("double", "float", "long double"):
            return F(random.Random("%s/%s" % (self.tag, name)).randint(0, 3))
        if t == "bool":
            return random.Random("%s/%s" % (self.tag, name)).random() < .5
        if t in ("string",) or t.startswith("basic_string"):
            return ("str", name)
        n, a = targs(t)
        n = n.split("::")[-1]
        if n == "function" or n == "FloatVector" or "(" in t:
            return ("fun", name)
        if n in ("unique_ptr", "shared_ptr") and a:
            p = ("ptr", name)
            self.ptrs[p] = a[0]
            return p
        if n == "VectorSlice":
            b = self.region(name)
            return {"begin_": F(b), "end_": F(b + ROWS)}
        if n in ("vector", "list", "deque", "array") and a:
            x = canon(a[0])
            m, b = targs(x)
            m = m.split("::")[-1]
            if m == "VectorSlice":
                g = self.region(name)
                return [{"begin_": F(g + i), "end_": F(g + j)} for i, j in self.part(ROWS, name)]
            if m == "pair" and all(canon(y) in INTS for y in b):
                return [{"first": F(i), "second": F(j)} for i, j in self.part(3 if self.groups else ROWS, name)]
            if m == "Group":
                return self.group_list(name)
            if x in INTS:
                rows = list(range(ROWS))
                random.Random("%s/%s" % (self.tag, name)).shuffle(rows)
                return [F(i) for i in rows[:4 if "RIndices" in name or "indices" in name else ROWS]]
            k = ROWS if depth < 2 else 2
            if depth > 3:
                return []
            return [self.gen(a[0], "%s[%d]" % (name, i), depth + 1) for i in range(k)]
        if n in ("unordered_set", "set") and a:
            m = EV.MapVal()
            for i in range(3):
                m.put(self.gen(a[0], "%s#%d" % (name, i), depth + 1), True)
            return m
        if n in ("unordered_map", "map") and len(a) > 1:
            m = EV.MapVal()
            for i in range(3):
                m.put(self.gen(a[0], "%s#%d" % (name, i), depth + 1) if canon(a[0]) not in INTS else F(i), self.gen(a[1], "%s@%d" % (name, i), depth + 1))
            return m
        if n == "pair" and len(a) == 2:
            return {"first": self.gen(a[0], name + ".first", depth + 1), "second": self.gen(a[1], name + ".second", depth + 1)}
        if n in ("mutex", "condition_variable", "promise", "future", "thread"):
            return {}
        r = self.rec(t)
        if r is not None and depth < 4:
            return self.record(r, name, depth)
        return None

    groups = False

    def rec(self, t):
        for k in (t, "gbdt::" + t):
            if k in self.c.db["recs"]:
                return self.c.db["recs"][k]
        return None

    def record(self, r, name, depth=0):
        d = {}
        for b in r.get("bases") or []:
            x = self.rec(b if isinstance(b, str) else b["name"])
            if x:
                d.update(self.record(x, name, depth))
        self_groups = any("Group>" in f["t"] for f in r["fields"])
        self.groups = self.groups or self_groups
        for f in r["fields"]:
            v = self.gen(f["t"], "%s.%s" % (name, f["name"]), depth + 1)
            if v is not None:
                d[f["name"]] = v
        return d

    def group_list(self, name):
        """Three groups that partition the rows."""
        if self.G is None:
            self.G = Groups(self.c)
        r = random.Random("%s/%s" % (self.tag, name))
        rows = list(range(ROWS))
        r.shuffle(rows)
        cuts = r.choice([[0, 2, 4, ROWS], [0, 3, 5, ROWS], [0, 0, 4, ROWS], [0, 1, 3, ROWS]])
        y = [F(i) for i in range(ROWS)]
        self.grows = []
        out = []
        for k, (i, j) in enumerate(zip(cuts, cuts[1:])):
            e = EV.Env(k)
            e.steps = 10 ** 6
            g = self.G.build(rows[i:j], y, e)
            self.grows.append(rows[i:j])
            out.append(g)
        return out


class Foot:
    def __init__(self, c):
        self.c = c
        self.N = Null(c)
        self.I = {}
        self.fps = {}
        self.dyn = ()
        self.only = {}
        self.rec = recursive(c.db)
        self.entry = [f for f in self.N.fs if not (f.get("rec") or "").endswith("ThreadPool") and self.mentions(f)]

    def mentions(self, f):
        ids = {f["id"]}
        todo = [f["id"]]
        g = graph(self.c.db)
        while todo:
            for y in g.get(todo.pop(), ()):
                h = self.c.db["fns"][y]
                if (h.get("rec") or "").endswith("ThreadPool") and h["name"].endswith("Enqueue"):
                    return True
                if y not in ids and self.inner(h):
                    ids.add(y)
                    todo.append(y)
        return False

    def inner(self, h):
        """Looked into as part of its caller: lambdas, small helpers."""
        return bool(h.get("islambda") or self.N.followed(h) and h.get("body") is not None)

    def enter(self, f):
        if f["id"] not in self.I:
            kw = dict(this_type=f["rec"]) if f.get("rec") and not f.get("static") and not f.get("ctor") else {}
            self.I[f["id"]] = self.c.enter(f, mem=True, opaque={"!pred": lambda g: None if self.N.followed(g) and g["id"] not in self.locked() else "effect"}, **kw)
        return self.I[f["id"]]

    def locked(self):
        return ()

    # ------------------------------------------------------------------ footprints of calls
    def dispatch(self, f):
        """Implementation of a virtual function in the chosen dynamic class."""
        seen, cand = set(), [f]
        todo = [f["id"]]
        while todo:
            x = todo.pop()
            for y in self.N.over.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
                    cand.append(self.c.db["fns"][y])
        if len(cand) == 1:
            return f
        best = None
        for d in self.dyn:
            for g in cand:
                if g.get("rec") and (d == g["rec"] or derived(self.c, d, g["rec"])):
                    if best is None or derived(self.c, g["rec"], best["rec"]):
                        best = g
        return best

    def classes(self):
        """Concrete classes by family (root class with virtual functions)."""
        out = {}
        for n, r in sorted(self.c.db["recs"].items()):
            if not n.startswith("gbdt::"):
                continue
            top = [b for b in sorted(self.c.db["recs"]) if b.startswith("gbdt::") and (b == n or derived(self.c, n, b)) and not (self.c.db["recs"][b].get("bases"))]
            if len(top) == 1:
                out.setdefault(top[0], []).append(n)
        return {k: v for k, v in out.items() if len(v) > 1}

    def fp(self, fid, chain=()):
        """{(base, fields, 'r'|'w', locks, file:line)}: what a call may access of its object, its arguments and globals. base: 'this' | k | ('g', name) | ('deep', k)."""
        key = (fid, self.dyn)
        if key in self.fps:
            return self.fps[key]
        f = self.c.db["fns"].get(fid)
        if f is None:
            return None
        g = self.dispatch(f) or f
        if g["id"] in chain:
            return set()
        if g.get("body") is None:
            return None
        out = set()
        I = self.enter(g)
        if g["id"] not in self.N.I:
            self.N.I[g["id"]] = I
            self.N.given(g, I)
        for e in I.events:
            out |= self.accesses(g, I, e, chain + (g["id"],)) or set()
        if not chain:
            self.fps[key] = out
        return out

    def base(self, g, root):
        if root[0] == "this":
            return "this"
        if root[0] == "arg":
            return root[1]
        if root[0] == "g":
            return ("g", str(root[1]))
        if root[0] == "*" and isinstance(root[1], Term):
            if root[1].op == "sym" and root[1].a[0] == "arg":
                return root[1].a[1]
            for t in subterms(root[1]):
                if t.op == "sym" and t.a[0] == "arg" and "VectorSlice" in g["params"][t.a[1]]["t"]:
                    return ("deep", t.a[1])
                if t.op == "init" and t.a[0][0] == "arg" and "VectorSlice" in g["params"][t.a[0][1]]["t"]:
                    return ("deep", t.a[0][1])
        return None

    @staticmethod
    def fields(path):
        out = []
        for p in path:
            if p[0] == ".":
                out.append(p[1])
            elif p[0] == "#":
                out.append("#")
                break
            else:
                out.append("[]")
                break
        return tuple(out)

    def lockset(self, g, e):
        out = set()
        for l in e.locks:
            m = l[1]
            if isinstance(m, Term) and m.op == "addr":
                b = self.base(g, m.a[0])
                if b is not None:
                    out.add((b, self.fields(m.a[1])))
        return frozenset(out)

    def accesses(self, g, I, e, chain):
        at = "src/%s:%s" % (e.file, e.line)
        if e.kind in ("read", "write"):
            if getattr(e, "how", "") == "call":
                return set()
            b = self.base(g, e.root)
            if b is None or isinstance(b, tuple) and b[0] == "g" and e.kind == "read":
                return set()
            if isinstance(b, tuple) and b[0] == "deep":
                return {(b, (), e.kind[0], self.lockset(g, e), at)}
            return {(b, self.fields(e.path), e.kind[0], self.lockset(g, e), at)}
        if e.kind in ("draw", "seed"):
            x = getattr(e, "gen", None)
            x = x if isinstance(x, Term) else None
            if x is not None and x.op == "addr":
                b = self.base(g, x.a[0])
                if b is not None:
                    return {(b, self.fields(x.a[1]), "w", self.lockset(g, e), at)}
            return set()
        if e.kind == "call" and e.mode != "inline":
            out = set()
            x = self.fp(e.fid, chain) if e.fid else None
            own = [e.this] + list(e.args)
            if x is None:
                # no source: the arguments it may modify
                return self.external(g, I, e)
            for b, fl, rw, lk, where in x:
                m = self.map(g, e, b)
                if m is None:
                    continue
                ll = set(self.lockset(g, e))
                for lb, lf in lk:
                    n = self.map(g, e, lb)
                    if n is not None:
                        ll.add((n[0], n[1] + lf))
                out.add((m[0], (m[1] + fl) if "[]" not in m[1] else m[1], rw, frozenset(ll), where))
            return out
        return set()

    def external(self, g, I, e):
        out = set()
        i = I.events.index(e)
        for w in I.events[i + 1:i + 12]:
            if w.kind != "write" or getattr(w, "how", "") != "call":
                if w.kind not in ("read",):
                    break
                continue
            b = self.base(g, w.root)
            if b is not None:
                out.add((b, self.fields(w.path), "w", self.lockset(g, w), "src/%s:%s" % (w.file, w.line)))
        return out

    def map(self, g, e, b):
        """(base, fields) of the caller a base of the callee stands for."""
        if isinstance(b, tuple):
            if b[0] == "deep":
                a = e.args[b[1]] if b[1] < len(e.args) else None
                for t in subterms(a) if isinstance(a, Term) else ():
                    k = t.a[1] if t.op == "sym" and t.a[0] == "arg" else t.a[0][1] if t.op == "init" and t.a[0][0] == "arg" else None
                    if k is not None and "VectorSlice" in g["params"][k]["t"]:
                        return ("deep", k), ()
                return None
            return b, ()
        a = e.this if b == "this" else (e.args[b] if b < len(e.args) else None)
        raw = getattr(e, "rawargs", None)
        if b != "this" and raw is not None and b < len(raw) and isinstance(raw[b], Term) and raw[b].op == "addr":
            a = raw[b]
        if not isinstance(a, Term):
            return None
        if a.op == "addr":
            n = self.base(g, a.a[0])
            return None if n is None else (n, self.fields(a.a[1]))
        if a.op == "sym" and a.a[0] == "arg":
            return a.a[1], ()
        if a.op == "this":
            return "this", ()
        return None

    def rowsonly(self, g, ks, kv):
        """g writes elements of parameter kv only at the rows of slice ks (calls of itself included)."""
        key = (g["id"], ks, kv, self.dyn)
        if key in self.only:
            return self.only[key]
        self.only[key] = True      # induction: the recursive calls
        try:
            self.only[key] = all(self.rows_run(g, ks, kv, it) for it in range(12))
        except EV.Unknown:
            self.only[key] = False
        return self.only[key]

    def rows_run(self, g, ks, kv, it):
        W = World(self.c, "%s/rows%d" % (self.c.seed, it))
        R = Run(self, g, W)
        base = W.region("slice")
        inner = R.env.sem
        n = random.Random("%s/n%d" % (W.tag, it)).randint(0, ROWS)
        mine = {"begin_": F(base), "end_": F(base + n)}

        def sem(env, k):
            if k[0] == "sym" and k[1] == "arg" and k[2] == ks or k[0] == "init" and k[1] == ("arg", ks):
                return mine
            return inner(env, k)
        R.env.sem = sem
        allowed = {W.mem[base + i] for i in range(n)}
        root = ("*", mk("sym", "arg", kv)) if "*" in g["params"][kv]["t"] else ("arg", kv)
        target = place(EV._k(root, R.env, {}), ())
        for e in trace(R.I.events, R.env):
            if e.kind in ("read", "write") and getattr(e, "how", "") != "call":
                a = R.access(e.root, e.path, True, e)
                if e.kind == "read" and a.path and a.path[0][0] == "#":
                    continue
                if a.root == target[0] and (not a.path or a.path[0][0] != "[" or int(a.path[0][1]) not in allowed):
                    return False
            if e.kind == "call" and e.fid:
                x = self.fp(e.fid)
                h = self.c.db["fns"][e.fid]
                ws = {b for b, fl, rw, _, _ in x or ()} if x is not None else set(range(len(e.args)))
                for b in ws if x is not None and h["id"] != g["id"] else ([kv] if h["id"] == g["id"] else ()):
                    if not isinstance(b, int) or not any(y[0] == b and y[1] != ("#",) for y in x or ()) and h["id"] != g["id"]:
                        continue
                    l = R.base(e, h, b)
                    if l is None or place(*l)[0] != target[0]:
                        continue
                    kk = [k for k, p in enumerate(h["params"]) if "VectorSlice" in p["t"]]
                    if len(kk) != 1 or not self.rowsonly(h, kk[0], b):
                        return False
                    v = EV.ev(e.args[kk[0]], R.env)
                    if not isinstance(v, dict) or not {W.mem[i] for i in range(int(v["begin_"]), int(v["end_"]))} <= allowed:
                        return False
        return True

    # ------------------------------------------------------------------ concrete runs
    def semof(self, f, I, W):
        memo = {}

        def typed(t, name):
            v = memo.get(name)
            if v is None:
                v = memo[name] = W.gen(t, name)
            return v

        def sem(env, k):
            if k[0] == "sym" and k[1] == "arg":
                return typed(f["params"][k[2]]["t"], "a%d" % k[2])
            if k[0] == "init":
                r = k[1]
                if r == ("this",):
                    v = memo.get("this")
                    if v is None:
                        v = memo["this"] = W.record(W.rec(f["rec"]) or {"fields": []}, "this")
                    return v
                if r[0] == "arg":
                    return typed(f["params"][r[1]]["t"], "a%d" % r[1])
                if r[0] == "*":
                    p = r[1]
                    if isinstance(p, (int, F)):
                        return self.slice_rows(W, int(p))
                    if p in W.ptrs:
                        return typed(W.ptrs[p], "*" + str(p[1]))
                    return None
                if r[0] == "g" or r[0] == "gv":
                    return F(2) if "FLAGS" in str(r) else None
                if r[0] == "heap":
                    return {}
            if k[0] == "sym" and "FLAGS" in str(k):
                return F(2)
            if k[0] in ("default", "pdefault") and str(k[1]).split("::")[-1] == "Split":
                r = random.Random("%s/%s" % (W.tag, k))
                return {"gain": F(r.randint(0, 1)), "has_cat_split": r.random() < .5, "has_float_split": False, "cat_split": {"internal_categorical_index": [F(0)], "category": []}}
            if k[0] == "default":
                return W.gen(k[1], "d") if canon(str(k[1])) in INTS else colmodel.default(k[1])
            if k[0] == "truth":
                return k[1] != ("null",)
            if k[0] == "code":
                return F(W.fail if W.fail and random.Random("%s%s" % (W.tag, k)).random() < .5 else 0)
            if k[0] == "out":
                return plain(k[5])
            if k[0] == "begin" and len(k) == 3:
                v = sem(env, ("init", k[1]))
                for x in k[2]:
                    v = v.get(x[1]) if isinstance(v, dict) else None
                if isinstance(v, list) and all(isinstance(x, (int, F)) for x in v):
                    return F(W.region(str(k), v))
            if k[0] == "draw":
                return F(random.Random("%s%s" % (W.tag, k)).randint(0, 5))
            if k[0] == "icall":
                return F(1)
            if k[0] == "ret":
                m = fnname(k)
                if m == "SamplePair":
                    return {"first": F(0), "second": F(1)}
                if m == "size" and not len(k) > 3:
                    return F(ROWS)
                e = self.calls(I).get((k[1], len(k) > 3 and k[3]))
                t = self.rettype(e, k)
                if t is None:
                    return None
                if "Status" in t and "*" not in t:
                    return None
                if m == "Partition":
                    return self.cut(k, W)
                return typed(t, "r:%s:%s" % (m, EV.hk(k[2:])))
            return None
        return sem

    def cut(self, k, W):
        for a in k[2]:
            d = dict(a[1]) if isinstance(a, tuple) and a and a[0] == "rec" else a if isinstance(a, dict) else None
            if d is None and "begin_" in str(a):
                try:
                    d = unhk(a)
                except Exception:
                    d = None
            if isinstance(d, dict) and "begin_" in d:
                lo, hi = int(d["begin_"]), int(d["end_"])
                m = random.Random("%s%s" % (W.tag, k)).randint(lo, hi)
                return {"first": {"begin_": F(lo), "end_": F(m)}, "second": {"begin_": F(m), "end_": F(hi)}}
        return None

    def slice_rows(self, W, p):
        out = []
        while p in W.mem:
            out.append(F(W.mem[p]))
            p += 1
        return out

    def calls(self, I):
        if not hasattr(I, "_calls"):
            I._calls = {(e.ret.a[0], len(e.ret.a) > 2 and e.ret.a[2]): e for e in I.events if e.kind == "call" and isinstance(e.ret, Term) and e.ret.op == "ret"}
        return I._calls

    def rettype(self, e, k):
        if e is not None and e.fid in self.c.db["fns"]:
            return self.c.db["fns"][e.fid].get("rt")
        n = str(k[1])
        for g in self.c.db["fns"].values():
            if g["name"].endswith(n):
                return g.get("rt")
        return None


def loc(v):
    """(root, path) an address value denotes."""
    if isinstance(v, tuple) and v:
        if v[0] == "addr":
            r, p = v[1], tuple(v[2])
            if r[0] == "*":
                x = loc(r[1])
                if x is not None:
                    return x[0], x[1] + p
            return r, p
        if v[0] == "ptr":
            return ("*", v), ()
    return None


def place(root, path):
    """Normal form of a location."""
    if root[0] == "*":
        if isinstance(root[1], (int, F)):
            if path and path[0][0] == "[":
                return ("mem", int(root[1]) + int(path[0][1])), path[1:]
            return ("mem", int(root[1])), path
        x = loc(root[1])
        if x is not None and x[0] != root:
            return place(x[0], x[1] + tuple(path))
    return root, tuple(path)


def overlap(p, pw, q, qw):
    """Do accesses of path p and q (pw, qw: is it a write) touch the same memory, one of them writing?"""
    if not (pw or qw):
        return False
    for i, (a, b) in enumerate(zip(p, q)):
        if a == b:
            continue
        if a[0] == "#" or b[0] == "#":
            hw = pw if a[0] == "#" else qw
            return hw
        if a[:1] == ("[",) and b[:1] == ("[",) or a[0] != b[0]:
            if a[0] != b[0]:
                return True
            if "any" in (a[1], b[1]):
                continue
            return False
        return False
    n = min(len(p), len(q))
    longer = p if len(p) > n else q
    if len(longer) > n and longer[n][0] == "#" and False:
        return True
    return True


class Access:
    __slots__ = ("root", "path", "w", "locks", "at", "what", "sync", "ev")

    def __init__(self, root, path, w, locks, at, what):
        self.root, self.path, self.w, self.locks, self.at, self.what = root, path, w, locks, at, what
        self.ev = None
        self.sync = (".", "!value") in path       # handed over through a promise


class Run:
    """One concrete execution of a function: accesses of every task and of the owning thread."""

    def __init__(self, F_, f, W):
        self.F, self.f, self.W = F_, f, W
        self.I = F_.enter(f)
        self.env = EV.Env(W.tag)
        self.env.steps = 3 * 10 ** 6
        self.env.sem = F_.semof(f, self.I, W)
        self.tasks = {}        # instance -> list of Access
        self.pool = {}         # instance -> pool location
        self.active = []
        self.sets = {}         # promise -> instance that sets it
        self.races, self.early, self.dangling, self.ordered = [], [], [], []
        self.n = 0

    def go(self):
        known = True
        env = self.env
        marks = {}
        for e in trace(self.I.events, env):
            inst = None
            if e.kind == "enqueue":
                inst = (e.no,) + self.iters(e.loops)
                self.pool[inst] = EV._k(e.pool, env, {})
                self.tasks[inst] = []
                self.active.append(inst)
                marks[inst] = (e.frame, e.tmp)
                continue
            if e.tasks:
                no, pool, loops = e.tasks[0]
                inst = (no,) + self.iters(loops)
                if inst not in self.tasks:
                    raise EV.Unknown("task %s" % (inst,))
            if e.kind == "join":
                p = EV._k(e.pool, env, {})
                self.active = [i for i in self.active if self.pool[i] != p or inst is not None]
                continue
            if e.kind in ("gone", "delete") and inst is None:
                l = (EV._k(e.root, env, {}), ()) if e.kind == "gone" else loc(EV.hk(EV.ev(e.ptr, env)))
                if l is not None:
                    r = place(*l)[0]
                    for i in self.active:
                        for b in self.tasks[i]:
                            if b.root == r:
                                self.dangling.append((i, b, e))
                                break
                continue
            if e.kind == "thr":
                p = EV._k(e.obj, env, {})
                if e.op == "set_value" and inst is not None:
                    self.sets[p] = (inst, len(self.tasks[inst]))
                if e.op in ("wait", "get") and inst is None:
                    self.await_(p)
                continue
            if e.kind == "call":
                x = self.F.fp(e.fid) if e.fid else None
                known = x is not None
                if known:
                    for a in self.of_call(e, x):
                        self.note(inst, a, marks)
                continue
            if e.kind in ("draw", "seed"):
                g = getattr(e, "gen", None)
                if isinstance(g, Term) and g.op == "addr":
                    self.note(inst, self.access(g.a[0], g.a[1], True, e), marks)
                continue
            if e.kind in ("read", "write"):
                if getattr(e, "how", "") == "call" and known:
                    continue
                self.note(inst, self.access(e.root, e.path, e.kind == "write", e), marks)
        return self

    def iters(self, loops):
        return tuple(int(self.env.dyn[IN.LOOPS[l].idx]) for l in loops)

    def locks(self, e):
        return frozenset(str(EV._k(l[1], self.env, {})) for l in e.locks if isinstance(l[1], Term))

    def path(self, p):
        out = []
        for x in p:
            if x[0] in ("[", "{") or len(x) > 1 and isinstance(x[1], Term):
                out.append((x[0] if x[0] != "{" else "[", EV.hk(EV.ev(x[1], self.env)) if isinstance(x[1], Term) else x[1]))
            else:
                out.append(tuple(x))
        return tuple(out)

    def access(self, root, path, w, e):
        r, p = place(EV._k(root, self.env, {}), self.path(path))
        a = Access(r, p, w, self.locks(e), "src/%s:%s" % (e.file, e.line), None)
        a.ev = e
        return a

    def of_call(self, e, fps):
        g = self.F.c.db["fns"][e.fid]
        out = []
        for b, fl, rw, lk, at in sorted(fps, key=str):
            if isinstance(b, tuple) and b[0] == "g":
                l = (("g", b[1]), ())
            elif isinstance(b, tuple):
                v = EV.ev(e.args[b[1]], self.env)
                v = v if isinstance(v, dict) else None
                if v is None or "begin_" not in v:
                    continue
                if not all(isinstance(v[x], (int, F)) for x in ("begin_", "end_")):
                    raise EV.Unknown("slice %s" % (str(v)[:80],))
                for i in range(int(v["begin_"]), int(v["end_"])):
                    out.append(Access(("mem", i), (), rw == "w", frozenset(), at, e.fn))
                continue
            else:
                l = self.base(e, g, b)
            if l is None:
                continue
            ll = set(self.locks(e))
            for lb, lf in lk:
                x = self.base(e, g, lb) if not isinstance(lb, tuple) else (lb, ())
                if x is not None:
                    ll.add("%s%s" % (place(*x), lf))
            idx = None
            if "[]" in fl and not isinstance(b, str) and "vector" in g["params"][b]["t"]:
                idx = self.rows(e, g, b)
            if idx is not None and fl[0] == "[]":
                for i in idx:
                    r, p = place(l[0], l[1] + (("[", F(i)),))
                    out.append(Access(r, p, rw == "w", frozenset(ll), at, e.fn))
                continue
            r, p = place(l[0], l[1] + tuple(("#", "hdr") if x == "#" else ("[", "any") if x == "[]" else (".", x) for x in fl))
            out.append(Access(r, p, rw == "w", frozenset(ll), at, e.fn))
        return out

    def base(self, e, g, b):
        a = e.this if b == "this" else (e.rawargs[b] if b < len(e.rawargs) else None)
        if not isinstance(a, Term):
            return None
        if b != "this" and not g["params"][b].get("ref") and "*" not in g["params"][b]["t"]:
            return None
        if a.op == "this":
            return ("this",), ()
        if a.op == "addr":
            return EV._k(a.a[0], self.env, {}), self.path(a.a[1])
        return loc(EV.hk(EV.ev(a, self.env)))

    def rows(self, e, g, b):
        """Rows a callee that works on a slice of rows writes at, when it writes at no others."""
        ks = [k for k, p in enumerate(g["params"]) if "VectorSlice" in p["t"]]
        if len(ks) != 1 or not self.F.rowsonly(g, ks[0], b):
            return None
        v = EV.ev(e.args[ks[0]], self.env)
        if not isinstance(v, dict) or "begin_" not in v:
            return None
        return [self.W.mem[i] for i in range(int(v["begin_"]), int(v["end_"]))]

    def await_(self, p):
        k = p[1] if isinstance(p, tuple) and p and p[0] == "future" else p
        s = self.sets.get(k)
        if s is None:
            return
        inst, n = s
        if inst in self.tasks:
            self.tasks[inst] = [a for a in self.tasks[inst][n:] if not a.sync]

    def private(self, root, inst, marks):
        fr, tmp = marks[inst]
        return root[0] == "v" and isinstance(root[-1], int) and root[-1] > fr or root[0] == "tmp" and root[1] > tmp

    def note(self, inst, a, marks):
        self.n += 1
        if inst is not None and self.private(a.root, inst, marks):
            return
        for i in self.active:
            if i == inst:
                continue
            for b in self.tasks[i]:
                if a.root == b.root and not (a.sync or b.sync) and overlap(a.path, a.w, b.path, b.w):
                    if a.locks & b.locks:
                        if inst is not None and a.w:
                            self.ordered.append((i, b, inst, a))
                        continue
                    (self.races if inst is not None else self.early).append((i, b, inst, a))
                    break
        if inst is not None:
            self.tasks[inst].append(a)


def pname(F_, root, path):
    """Readable location."""
    def one(x):
        if x[0] == "this":
            return "this"
        if x[0] == "arg":
            return "parameter %s" % x[1]
        if x[0] in ("v", "g"):
            return str(x[1]).split("@")[0]
        if x[0] == "*":
            return "*%s" % (x[1][1] if isinstance(x[1], tuple) and len(x[1]) > 1 and x[1][0] == "ptr" else "p")
        if x[0] == "mem":
            return "row slice element"
        return str(x[0])
    out = one(root)
    for p in path:
        out += "[%s]" % p[1] if p[0] == "[" else " (its size)" if p[0] == "#" else "." + str(p[1])
    return out


def worlds(c, F_, f):
    """Runs of a function over the worlds of this tier."""
    cl = F_.classes()
    n = max(len(v) for v in cl.values())
    N = 3 * n if c.tier == "thorough" else n
    for it in range(N):
        F_.dyn = tuple(v[it % len(v)] for k, v in sorted(cl.items()))
        W = World(c, "%s/%s/w%d" % (c.seed, f["name"], it))
        W.fail = 5 if it % 2 else 0
        yield Run(F_, f, W).go()
