"""Abstract interpretation of the small Python package in front of the native module: symbolic values, native objects by class, every path."""
import ast, re


class Fork(Exception):
    pass


class Unk(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    pass


class Flow(Exception):
    def __init__(self, k):
        self.k = k


class Fn:
    def __init__(self, node, env, mod, cls=None, selfv=None):
        self.node, self.env, self.mod, self.cls, self.selfv = node, env, mod, cls, selfv


def const(v):
    return ("const", v)


class Interp:
    """One package: modules by file name; native: {class: {method: signature}}, functions under class None."""

    def __init__(self, mods, native, domain, json_types, strict=40000):
        self.mods, self.native, self.domain, self.json = mods, native, domain, json_types
        self.classes, self.attrs = {}, {}
        for m, tree in mods.items():
            for n in tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[n.name] = (m, n, {f.name: f for f in n.body if isinstance(f, ast.FunctionDef)})
        for c, (m, n, fs) in self.classes.items():
            f = fs.get("__init__")
            if f is None or c not in native:
                continue
            ps = {a.arg for a in f.args.args}
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == f.args.args[0].arg:
                    v = x.value
                    if isinstance(v, ast.Name) and v.id in ps or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in native:
                        self.attrs[x.targets[0].attr] = c
        self.events = []
        self.limit = strict

    # ------------------------------------------------------------------ paths
    def paths(self, f, args, kw=None, limit=400):
        """All paths of calling f: list of (result | None, raised?, events, choices)."""
        out, todo = [], [[]]
        while todo and len(out) < limit:
            pre = todo.pop()
            self.pre, self.taken, self.memo = pre, [], {}
            self.stack = []
            self.events, self.steps, self.yields, self.depth = [], 0, [], 0
            r, raised = None, False
            try:
                r = self.call(f, args, kw or {}, None)
            except Raised:
                raised = True
            out.append((r, raised, self.events, dict(self.memo), list(self.yields)))
            for i in range(len(pre), len(self.taken)):
                k, n = self.taken[i]
                for j in range(k + 1, n):
                    todo.append([x for x, _ in self.taken[:i]] + [j])
        if todo:
            raise Unk("too many paths")
        return out

    def choose(self, key, n):
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        k = self.pre[i] if i < len(self.pre) else 0
        self.taken.append((k, n))
        self.memo[key] = k
        return k

    def truth(self, v):
        if v[0] == "const":
            return bool(v[1])
        if v[0] in ("native", "wrap", "fn", "nclass", "pyclass", "module"):
            return True
        if v[0] == "list":
            return bool(v[1])
        if v[0] == "dict" and v[1]:
            return True
        if v[0] == "not":
            return not self.truth(v[1])
        return self.choose(("truth", v), 2) == 0

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        if self.stack.count(f.node) >= 2:
            self.cut = True
            return ("res", "recursion", getattr(f.node, "name", "lambda"), tuple(freeze(a) for a in args))     # the same body again, judged where it was entered
        self.depth += 1
        self.stack.append(f.node)
        if self.depth > 30:
            raise Unk("recursion")
        try:
            env = {}
            n = f.node
            ps = [a.arg for a in n.args.args]
            if f.selfv is not None:
                args = [f.selfv] + list(args)
            d = n.args.defaults
            for i, a in enumerate(ps):
                if i < len(args):
                    env[a] = args[i]
                elif a in kw:
                    env[a] = kw[a]
                elif len(ps) - i <= len(d):
                    env[a] = self.ev(d[i - (len(ps) - len(d))], {}, f)
                else:
                    raise Unk("missing argument %s" % a)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in (n.body if isinstance(n.body, list) else []) for x in ast.walk(s) if not isinstance(x, ast.FunctionDef))
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env, f)
            saved = self.yields
            if gen:
                self.yields = []
            try:
                self.block(n.body, env, f)
                r = const(None)
            except Ret as x:
                r = x.v
            if gen:
                ys, self.yields = self.yields, saved
                if self.depth == 1:
                    self.yields = ys
                return ("gen", tuple(ys))
            return r
        finally:
            self.depth -= 1
            self.stack.pop()

    def block(self, body, env, f):
        for s in body:
            self.steps += 1
            if self.steps > self.limit:
                raise Unk("too long")
            self.stmt(s, env, f)

    def stmt(self, s, env, f):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f)
            for t in s.targets:
                self.bind(t, v, env, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, f), env, f)
        elif isinstance(s, ast.AugAssign):
            v = ("op", type(s.op).__name__, self.ev(load(s.target), env, f), self.ev(s.value, env, f))
            self.bind(s.target, v, env, f)
        elif isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env, f) if s.value is not None else const(None))
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, f)) else s.orelse, env, f)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env, f)
            for v in self.items(it, s):
                self.bind(s.target, v, env, f)
                try:
                    self.block(s.body, env, f)
                except Flow as x:
                    if x.k == "break":
                        break
        elif isinstance(s, ast.While):
            if self.truth(self.ev(s.test, env, f)):
                try:
                    self.block(s.body, env, f)
                except Flow:
                    pass
        elif isinstance(s, ast.Raise):
            raise Raised()
        elif isinstance(s, ast.Try):
            self.block(s.body, env, f)
            self.block(s.orelse, env, f)
            self.block(s.finalbody, env, f)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env, f)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, f)
            self.block(s.body, env, f)
        elif isinstance(s, ast.FunctionDef):
            g = Fn(s, env, f.mod, f.cls)
            g.outer = f
            env[s.name] = ("fn", g)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                env[n] = self.imported(s, a)
        elif isinstance(s, (ast.Break, ast.Continue)):
            raise Flow("break" if isinstance(s, ast.Break) else "continue")
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal, ast.Delete)):
            pass
        else:
            raise Unk(type(s).__name__)

    def imported(self, s, a):
        if isinstance(s, ast.ImportFrom):
            if a.name == "libgbdt":
                return ("module", "libgbdt")
            if a.name in self.classes:
                return ("pyclass", a.name)
            if a.name in self.native:
                return ("nclass", a.name)
            g = self.globalfn(a.name)
            if g is not None:
                return g
        return ("module", a.name)

    def globalfn(self, n):
        for m, t in self.mods.items():
            for x in t.body:
                if isinstance(x, ast.FunctionDef) and x.name == n:
                    return ("fn", Fn(x, {}, m))
        return None

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x, self.index(v, const(i), t), env, f)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, f)
            if o[0] == "self":
                o[2].d[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, f)
            k = self.ev(t.slice, env, f)
            if o[0] == "dict":
                o[1].append((k, v))
            else:
                self.events.append(("store", o, k, v, t.lineno, f.mod))
        else:
            raise Unk("target")

    def items(self, it, node):
        """Representative elements of an iterable."""
        if it[0] in ("list", "tuple"):
            return list(it[1])
        if it[0] == "gen":
            return list(it[1])
        if it[0] == "const" and isinstance(it[1], (list, tuple, str)):
            return [const(x) for x in it[1]]
        if it[0] == "dict":
            return [k for k, _ in it[1]]
        if it[0] == "comp":
            return [it[1]]
        if it[0] == "json" and it[1].endswith("*"):
            return [("json", it[1][:-1], ("elem", it[2]))]
        return [("elem", it)]

    # ------------------------------------------------------------------ expressions
    def name(self, n, env, f):
        e = env
        if n in e:
            return e[n]
        g = f
        while g is not None:
            if n in (g.env or {}):
                return g.env[n]
            g = getattr(g, "outer", None)
        for x in self.mods[f.mod].body:
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    if (a.asname or a.name.split(".")[0]) == n:
                        return self.imported(x, a)
            if isinstance(x, ast.FunctionDef) and x.name == n:
                return ("fn", Fn(x, {}, f.mod))
            if isinstance(x, ast.ClassDef) and x.name == n:
                return ("pyclass", n)
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == n:
                return self.ev(x.value, {}, f)
        return ("builtin", n)

    def ev(self, e, env, f):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return self.name(e.id, env, f)
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, env, f), e.attr, e, f)
        if isinstance(e, ast.Call):
            fn = self.ev(e.func, env, f)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    v = self.ev(a.value, env, f)
                    if v[0] != "list":
                        raise Unk("star arguments")
                    args += v[1]
                else:
                    args.append(self.ev(a, env, f))
            kw = {}
            for k in e.keywords:
                v = self.ev(k.value, env, f)
                if k.arg is None:
                    if v[0] != "dict" or not all(x[0][0] == "const" for x in v[1]):
                        raise Unk("keyword arguments")
                    kw.update({x[0][1]: x[1] for x in v[1]})
                else:
                    kw[k.arg] = v
            return self.apply(fn, args, kw, e, f)
        if isinstance(e, ast.Subscript):
            return self.index(self.ev(e.value, env, f), self.ev(e.slice, env, f), e, f)
        if isinstance(e, ast.Slice):
            return ("slice",)
        if isinstance(e, ast.Compare):
            return self.compare(e, env, f)
        if isinstance(e, ast.BoolOp):
            r = None
            for x in e.values:
                r = self.ev(x, env, f)
                t = self.truth(r)
                if t != isinstance(e.op, ast.And):
                    return r if r[0] == "const" else const(t)
            return r
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, f)
            if isinstance(e.op, ast.Not):
                return const(not self.truth(v))
            return ("op", type(e.op).__name__, v)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env, f), self.ev(e.right, env, f)
            if isinstance(e.op, ast.Add) and (text(a) or text(b)):
                return ("str", parts(a) + parts(b))
            if isinstance(e.op, ast.Mod) and a[0] == "const" and isinstance(a[1], str):
                bs = list(b[1]) if b[0] == "tuple" else [b]
                out, fmt = [], a[1]
                import re
                for p in re.split(r"(%[sd])", fmt):
                    if p in ("%s", "%d"):
                        if not bs:
                            raise Unk("format")
                        out += parts(bs.pop(0))
                    elif p:
                        out.append(p)
                return ("str", tuple(out))
            return ("op", type(e.op).__name__, a, b)
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env, f)) else e.orelse, env, f)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            v = tuple(self.ev(x, env, f) for x in e.elts)
            return ("tuple" if isinstance(e, ast.Tuple) else "list", v)
        if isinstance(e, ast.Dict):
            return ("dict", [(self.ev(k, env, f), self.ev(v, env, f)) for k, v in zip(e.keys, e.values)])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(e, e.elt, env, f)
        if isinstance(e, ast.DictComp):
            return self.comp(e, ast.Tuple([e.key, e.value], ast.Load()), env, f)
        if isinstance(e, ast.Lambda):
            g = Fn(e, env, f.mod, f.cls)
            g.outer = f
            return ("fn", g)
        if isinstance(e, ast.JoinedStr):
            out = ()
            for x in e.values:
                out += parts(const(x.value)) if isinstance(x, ast.Constant) else parts(self.ev(x.value, env, f))
            return ("str", out)
        if isinstance(e, ast.Yield):
            v = self.ev(e.value, env, f) if e.value is not None else const(None)
            self.yields.append(v)
            return const(None)
        raise Unk(type(e).__name__)

    def comp(self, e, elt, env, f):
        g = e.generators[0]
        it = self.ev(g.iter, env, f)
        lazy = ("comp-of", it)
        env = dict(env)
        if len(e.generators) == 1 and any(g.ifs):
            # filtered: keep the filter for membership tests
            pass
        conds = []
        for v in self.items(it, e)[:1]:
            self.bind(g.target, v, env, f)
            for h in e.generators[1:]:
                for w in self.items(self.ev(h.iter, env, f), e)[:1]:
                    self.bind(h.target, w, env, f)
            saved = (list(self.taken), dict(self.memo))
            r = self.ev(elt, env, f)
            return ("comp", r, it, CompInfo(e, env, f))
        return ("list", ())

    def compare(self, e, env, f):
        a = self.ev(e.left, env, f)
        res = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env, f)
            r = self.cmp(op, a, b, e, f)
            if not r:
                return const(False)
            a = b
        return const(True)

    def cmp(self, op, a, b, e, f):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, e, f)
            return r if isinstance(op, ast.In) else not r
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if a[0] == "const" and b[0] == "const":
            return {ast.Lt: lambda: a[1] < b[1], ast.LtE: lambda: a[1] <= b[1], ast.Gt: lambda: a[1] > b[1], ast.GtE: lambda: a[1] >= b[1]}[type(op)]()
        return self.choose((type(op).__name__, freeze(a), freeze(b)), 2) == 0

    def equal(self, a, b):
        if b[0] == "dom":
            a, b = b, a
        if a[0] == "dom":
            v = self.domain[a[1]][self.choose(("dom", a), len(self.domain[a[1]]))]
            return b[0] == "const" and v == b[1]
        if a[0] == "const" and b[0] == "const":
            return a[1] == b[1]
        if b[0] == "const" and b[1] is None and a[0] in ("native", "wrap", "list", "tuple", "dict", "str"):
            return False
        if a == b:
            return True
        return self.choose(("eq", freeze(a), freeze(b)), 2) == 0

    def contains(self, a, b, e, f):
        if b[0] in ("native", "wrap", "self"):
            r = self.method(b, "__contains__", [a], {}, e, f)
            return self.truth(r)
        if b[0] == "json":
            return self.haskey(b, a, e, f)
        if b[0] == "set":
            b = b[1]
        if b[0] == "comp" and len(b) > 3 and b[2][0] == "elems" and b[2][1][0] == "param":
            # [k for k, v in overrides.items() if test(v)]
            d = b[2][1]
            key = ("override", d[1])
            if d[1] in self.domain:
                v = self.domain[d[1]][self.choose(("dom", key, freeze(a)), len(self.domain[d[1]]))]
                if v is None:
                    return False
                env = dict(b[3].env)
                g = b[3].e.generators[0]
                self.bind(g.target, ("tuple", (a, const(v))), env, b[3].f)
                return all(self.truth(self.ev(t, env, b[3].f)) for t in g.ifs)
        if b[0] in ("list", "tuple"):
            return any(self.equal(a, x) for x in b[1])
        if b[0] == "param" and b[1] in self.domain:
            v = self.domain[b[1]][self.choose(("dom", ("override", b[1]), freeze(a)), len(self.domain[b[1]]))]
            return v is not None
        if b[0] == "dict":
            return any(self.equal(a, k) for k, _ in b[1])
        return self.choose(("in", freeze(a), freeze(b)), 2) == 0

    # ------------------------------------------------------------------ objects
    def attr(self, o, n, e, f):
        if o[0] == "module":
            if o[1] == "libgbdt":
                if n in self.native:
                    return ("nclass", n)
                if n in self.native[None]:
                    return ("nfn", n)
                self.events.append(("missing", "libgbdt", n, e.lineno, f.mod))
                return ("unk", n)
            return ("module", o[1] + "." + n)
        if o[0] == "self":
            c, inst = o[1], o[2]
            if n in inst.d:
                return inst.d[n]
            if n in self.classes[c][2]:
                return ("method", o, n)
            if n in self.attrs and self.attrs[n] == c:
                return ("native", c, ("of", o[1]))
            return ("attr", ("this", c), n)
        if o[0] == "wrap":
            c = o[1]
            if n in self.attrs and self.attrs[n] == c:
                return o[2]
            return ("method", o, n)
        if o[0] == "native":
            return ("method", o, n)
        if o[0] == "pyclass":
            fs = self.classes[o[1]][2]
            if n in fs:
                return ("fn", Fn(fs[n], {}, self.classes[o[1]][0], o[1]))
            self.events.append(("missing", o[1], n, e.lineno, f.mod))
            return ("unk", n)
        if n in self.attrs and o[0] in ("param", "unk", "elem"):
            return ("native", self.attrs[n], ("of", o))
        return ("method", o, n)

    def apply(self, fn, args, kw, e, f):
        if fn[0] == "fn":
            g = fn[1]
            return self.call(g, args, kw, e)
        if fn[0] == "nclass":
            return self.native_call(fn[1], "__init__", None, args, kw, e, f)
        if fn[0] == "nfn":
            return self.native_call(None, fn[1], None, args, kw, e, f)
        if fn[0] == "pyclass":
            c = fn[1]
            if c in self.native:
                self.events.append(("wrap", c, args[0] if args else None, e.lineno, f.mod))
                return ("wrap", c, args[0] if args else const(None))
            return ("wrap", c, args[0] if args else const(None))
        if fn[0] == "method":
            return self.method(fn[1], fn[2], args, kw, e, f)
        if fn[0] == "builtin":
            return self.builtin(fn[1], args, kw, e, f)
        if fn[0] == "module":
            return self.library(fn[1], args, kw, e, f)
        return ("res", freeze(fn), tuple(freeze(a) for a in args))

    def builtin(self, n, args, kw, e, f):
        a = args[0] if args else None
        if n == "len" and a is not None:
            if a[0] in ("native", "wrap", "self"):
                return self.method(a, "__len__", [], {}, e, f)
            return ("len", freeze(a))
        if n in ("str", "repr") and a is not None:
            if a[0] in ("native", "self", "wrap"):
                return self.method(a, "__str__", [], {}, e, f)
            if a[0] == "const":
                return const(str(a[1]))
            if a[0] == "param" and a[1] in ("forest", "base_forest"):
                return ("jsontext", "Forest")
            return ("str", parts(a)) if n == "str" and a[0] != "str" else a
        if n == "isinstance" and len(args) == 2:
            return const(self.isinst(args[0], args[1]))
        if n in ("set", "frozenset"):
            return ("set", a) if a is not None else ("set", ("list", ()))
        if n in ("list", "sorted", "tuple", "iter", "reversed"):
            if a is not None and a[0] in ("native", "wrap"):
                return ("comp", ("elem", freeze(a)), a)
            return a if a is not None else ("list", ())
        if n in ("range", "enumerate", "zip", "map", "filter"):
            return ("res", n, tuple(freeze(x) for x in args))
        if n == "dict" and a is not None:
            return a
        if n == "open":
            self.events.append(("open", args, e.lineno, f.mod))
            return ("file", freeze(a))
        if n == "float" and a is not None and a[0] != "const":
            return ("float", freeze(a))
        if n == "int" and a is not None:
            return ("int", freeze(a))
        if n == "type":
            return ("type", freeze(a))
        return ("res", n, tuple(freeze(x) for x in args))

    def isinst(self, v, t):
        if t[0] in ("tuple", "list"):
            return any(self.isinst(v, x) for x in t[1])
        if t[0] == "nclass":
            if v[0] == "native":
                return v[1] == t[1]
            if v[0] in ("const", "list", "dict", "tuple", "wrap"):
                return False
        if t[0] == "pyclass" and v[0] == "wrap":
            return v[1] == t[1]
        if t[0] == "builtin" and v[0] in ("native", "wrap"):
            return False
        if t[0] == "builtin" and v[0] == "const":
            return type(v[1]).__name__ == t[1]
        if t[0] == "builtin" and v[0] == "elem" and isinstance(v[1], tuple) and v[1] and v[1][0] == "ncall":
            s = (self.native.get(v[1][1]) or {}).get(v[1][2])
            m = re.search(r"(?:vector|list)<(?:const )?(?:std::)?(?:__cxx11::)?(basic_string|string|int|float|double)", (s or {}).get("rt") or "")
            if m:
                k = {"basic_string": "str", "string": "str", "double": "float"}.get(m.group(1), m.group(1))
                return t[1] == k
        return self.choose(("isinstance", freeze(v), freeze(t)), 2) == 0

    def library(self, n, args, kw, e, f):
        a = args[0] if args else None
        if n == "json.loads" and a is not None:
            if a[0] == "jsontext":
                return ("json", a[1], ("root",))
            if a[0] == "ncall" and a[2] == "as_json":
                return ("json", "Forest", ("root",))
            return ("json", "Forest", ("root",))
        if n == "json.dumps" and a is not None:
            return ("jsonof", freeze(a))
        return ("res", n, tuple(freeze(x) for x in args), tuple(sorted((k, freeze(v)) for k, v in kw.items())))

    def method(self, o, n, args, kw, e, f):
        if o[0] == "native":
            return self.native_call(o[1], n, o, args, kw, e, f)
        if o[0] in ("self", "wrap"):
            fs = self.classes[o[1]][2]
            if n in fs:
                s = o if o[0] == "self" else ("self", o[1], Inst({}, o))
                if o[0] == "wrap" and o[1] in self.native:
                    s = ("self", o[1], Inst({a: o[2] for a, c in self.attrs.items() if c == o[1]}, o))
                static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fs[n].decorator_list)
                return self.call(Fn(fs[n], {}, self.classes[o[1]][0], o[1], None if static else s), args, kw, e)
            if n.startswith("__"):
                return ("res", n, (freeze(o),))
            self.events.append(("missing", o[1], n, e.lineno, f.mod))
            return ("unk", n)
        if o[0] == "super":
            return const(None)
        if n == "items":
            if o[0] == "param":
                return ("elems", o)
            if o[0] == "dict":
                return ("list", tuple(("tuple", (k, v)) for k, v in o[1]))
        if n == "format" and (o[0] == "const" and isinstance(o[1], str)):
            return fmt(o[1], args, kw)
        if n == "join":
            return ("str", parts(("res", "join", tuple(freeze(x) for x in args))))
        if n == "append" and o[0] == "list":
            return const(None)
        if n == "get" and o[0] == "param" and o[1] in self.domain and args:
            v = self.domain[o[1]][self.choose(("dom", ("override", o[1]), freeze(args[0])), len(self.domain[o[1]]))]
            return const(v) if v is not None else args[1] if len(args) > 1 else const(None)
        if n == "get" and o[0] == "json" and args:
            if self.haskey(o, args[0], e, f):
                return self.index(o, args[0], e, f)
            return args[1] if len(args) > 1 else const(None)
        if o[0] == "param" and not n.startswith("_"):
            c = {"data_store": "DataStore", "data": "DataStore", "forest": "Forest", "base_forest": "Forest"}.get(o[1])
            if c and c in self.classes and n in self.classes[c][2]:
                w = ("wrap", c, ("native", c, ("of", o)))
                return self.method(w, n, args, kw, e, f)
            if c and c in self.classes:
                self.events.append(("missing", c, n, e.lineno, f.mod))
        return ("mcall", freeze(o), n, tuple(freeze(x) for x in args), tuple(sorted((k, freeze(v)) for k, v in kw.items())))

    def native_call(self, cls, n, recv, args, kw, e, f):
        sig = self.native.get(cls, {}).get(n)
        self.events.append(("call", cls, n, recv, tuple(args), dict(kw), e.lineno, f.mod))
        if n == "__init__":
            return ("native", cls, ("new", e.lineno, len(self.events)))
        if sig is None:
            return ("unk", n)
        rt = sig["rt"]
        key = ("ncall", cls, n, freeze(recv), tuple(freeze(a) for a in args), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
        for c in self.native:
            if c and sig.get("rcls") == c:
                return ("native", c, key)
        if n == "get_column_type":
            return ("dom", "kind", tuple(freeze(a) for a in args))
        if n == "as_json":
            return ("jsontext", "Forest", key)
        return key

    def index(self, o, k, e, f=None):
        if o[0] in ("tuple", "list") and k[0] == "const" and isinstance(k[1], int) and k[1] < len(o[1]):
            return o[1][k[1]]
        if o[0] == "elem" and o[1][0] == "elems" and k[0] == "const":
            d = o[1][1]
            return ("key", d) if k[1] == 0 else ("val", d, ("key", d))
        if o[0] == "json":
            return self.jsonget(o, k, e, f)
        if o[0] in ("wrap", "self"):
            return self.method(o, "__getitem__", [k], {}, e, f)
        if o[0] == "native":
            return self.native_call(o[1], "__getitem__", o, [k], {}, e, f)
        if o[0] == "dict":
            for x, v in o[1]:
                if x == k:
                    return v
        if o[0] == "param" and o[1] in self.domain:
            v = self.domain[o[1]][self.choose(("dom", ("override", o[1]), freeze(k)), len(self.domain[o[1]]))]
            if v is None:
                raise Raised()
            return const(v)
        return ("item", freeze(o), freeze(k))

    # ------------------------------------------------------------------ model JSON
    def haskey(self, o, k, e, f):
        m, path = o[1], o[2]
        if k[0] != "const":
            return self.choose(("key", o, freeze(k)), 2) == 0
        fs = self.json.get(m)
        if fs is None:
            return self.choose(("key", o, k[1]), 2) == 0
        if k[1] not in fs:
            self.events.append(("nokey", m, k[1], e.lineno, f.mod if f else ""))
            return False
        return self.present(m, path, k[1])

    def present(self, m, path, k):
        """Is an optional part there? The shapes training produces."""
        if self.json[m][k][1]:
            return True
        if m == "TreeNode":
            inner = self.choose(("inner", path), 2) == 0
            if k in ("leftChild", "rightChild"):
                return inner
            if k == "split":
                return True if inner else self.choose(("leafsplit", path), 2) == 0
        if m == "Split" and k in ("floatSplit", "catSplit"):
            fl = self.choose(("float", path), 2) == 0
            return fl == (k == "floatSplit")
        return self.choose(("present", path, k), 2) == 0

    def jsonget(self, o, k, e, f):
        m, path = o[1], o[2]
        if m.endswith("*"):
            return ("json", m[:-1], ("item", path, freeze(k)))
        fs = self.json.get(m)
        if fs is None or k[0] != "const":
            return ("item", freeze(o), freeze(k))
        if k[1] not in fs:
            self.events.append(("nokey", m, k[1], e.lineno, f.mod if f else ""))
            return ("unk", k[1])
        t, always = fs[k[1]]
        if not self.present(m, path, k[1]):
            self.events.append(("absent", m, k[1], e.lineno, f.mod if f else ""))
            raise Raised()
        if t in self.json or t.endswith("*") and t[:-1] in self.json:
            return ("json", t, (path, k[1]))
        return ("prim", m, k[1])


class Inst:
    def __init__(self, d, of):
        self.d, self.of = d, of

    def __repr__(self):
        return "inst"


class CompInfo:
    def __init__(self, e, env, f):
        self.e, self.env, self.f = e, env, f

    def __repr__(self):
        return "comp"


def load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def freeze(v):
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v if not isinstance(x, (Inst, CompInfo)))
    if isinstance(v, Fn):
        return ("fnode", v.node.lineno)
    if isinstance(v, (Inst, CompInfo)):
        return str(v)
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    return v


def text(v):
    return v[0] == "str" or v[0] == "const" and isinstance(v[1], str)


def parts(v):
    if v[0] == "str":
        return v[1]
    if v[0] == "const":
        return (str(v[1]),)
    return (("hole", freeze(v)),)


def fmt(s, args, kw):
    import string
    out, k = (), 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out += (lit,)
        if field is None:
            continue
        if field == "":
            v = args[k] if k < len(args) else None
            k += 1
        elif field.isdigit():
            v = args[int(field)] if int(field) < len(args) else None
        else:
            v = kw.get(field)
        if v is None:
            raise Unk("format %r" % s)
        out += parts(v) if not spec else (("hole", freeze(v), spec),)
    return ("str", out)
