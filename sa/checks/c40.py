"""C40: the Python package and the native module agree on names, arguments, kinds, file names and model fields."""
import ast, os, re
from fractions import Fraction
from .. import evalterm as EV
from ..core import *
from ..pyabs import *
from ..callgraph import callees

KINDS = ("bucketized_float", "raw_float", "string")


def nodes(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            yield y
            todo += list(y.values())
        elif isinstance(y, list):
            todo += y


def snake(s):
    return re.sub(r"(?<=[a-z])([A-Z])", r"_\1", s).lower()


def kind_of(s):
    for k in KINDS:
        if k in s:
            return k
    return None


def bare(e):
    while isinstance(e, dict) and e.get("k") in ("mat", "cast", "un") and "e" in e:
        e = e["e"]
    return e


class Native:
    """What the registration code makes available to Python."""

    def __init__(self, c):
        self.c = c
        self.cls = {None: {}}
        self.where = {}
        self.inits = []         # (Python class, every constructor registration)
        self.pyname = {}        # C++ class -> Python class
        fs = [f for f in c.db["fns"].values() if f["file"].startswith("python/") and f.get("body") is not None]
        calls = []
        self.bad = []
        for f in fs:
            for y in nodes(f["body"]):
                n = y.get("name") or ""
                if y.get("k") in ("ctor",) and n.startswith("pybind11::class_<") and len(y.get("args") or []) >= 2:
                    cpp = canon(y.get("rec") and y.get("t") or y.get("t"))
                    m = re.search(r"class_<([\w:]+)", y.get("t") or n)
                    s = bare(y["args"][1])
                    if m and s.get("k") == "str":
                        self.pyname[m.group(1)] = s["v"]
                        self.cls.setdefault(s["v"], {})
                        self.where[s["v"]] = "src/%s:%s" % (f["file"], y.get("l"))
                if y.get("k") == "mcall" and n.startswith(("pybind11::class_<", "pybind11::module")) and n.split("::")[-1] == "def":
                    calls.append((f, y))
        for f, y in calls:
            m = re.match(r"pybind11::class_<([\w:]+)", y["name"])
            cls = self.pyname.get(m.group(1)) if m else None
            if m and cls is None:
                continue
            a = y.get("args") or []
            s = bare(a[0]) if a else {}
            where = "src/%s:%s" % (f["file"], y.get("l"))
            if s.get("k") != "str":
                # py::init<...>()
                t = " ".join(str(x.get("t")) for x in a)
                m = re.search(r"\bconstructor<(.*)>", t)
                ps = [p for p in split(m.group(1))] if m else []
                if not m:
                    self.cls[cls]["__init__"] = None      # made by a factory: its arguments are not compared
                    continue
                self.cls[cls]["__init__"] = dict(ps=ps, names=[None] * len(ps), defaults=[False] * len(ps), rt=cls, fn=None, where=where, cnames=[], raw=a)
                self.inits.append((cls, self.cls[cls]["__init__"]))
                continue
            g = bare(a[1]) if len(a) > 1 else {}
            fid = g.get("fn") or g.get("id")
            pt = g.get("pt")
            rt = g.get("rt")
            if g.get("k") == "lambda":
                h = c.db["fns"].get(g.get("id") or g.get("fn")) or {}
                pt = [p["t"] for p in h.get("params") or []]
                rt = h.get("rt")
            if pt is None:
                h = c.db["fns"].get(fid) or {}
                pt, rt = [p["t"] for p in h.get("params") or []], h.get("rt")
            names, defs = [], []
            for x in a[2:]:
                for z in nodes(x):
                    if z.get("k") == "ctor" and z.get("name", "").endswith("arg::arg"):
                        q = bare(z["args"][0])
                        if q.get("k") == "str":
                            names.append(q["v"])
                            defs.append(any(w.get("name", "").endswith("arg::operator=") for w in nodes(x)))
                            break
            if not names:
                names, defs = [None] * len(pt), [False] * len(pt)
            h = c.db["fns"].get(fid) or {}
            free = cls is not None and h and not h.get("rec") and pt      # a free function used as a method
            if len(names) != len(pt):
                self.bad.append((where, s["v"], "%d argument names for %d parameters" % (len(names), len(pt))))
            cn = [p.get("name") for p in h.get("params") or []]
            rc = None
            for k, v in self.pyname.items():
                if rt and re.search(r"\b%s\b" % k.split("::")[-1], rt) and "<" not in rt:
                    rc = v
            self.cls[cls][s["v"]] = dict(ps=pt, names=names, defaults=defs, rt=rt, fn=fid, where=where, cnames=cn, rcls=rc, obj=canon(g.get("rec") or ""), raw=a[1:])

    def kind(self, fid):
        """Kind of column a bound function deals with, from the data store operations it uses."""
        out, seen, todo = set(), set(), [(fid, 0)]
        while todo:
            x, d = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.c.db["fns"].get(x)
            n = (f or {}).get("name") or x or ""
            m = re.search(r"(?:Create|Get)(String|BucketizedFloat|RawFloat)Columns?\b", n.split("::")[-1]) if f else re.search(r"(?:Create|Get)(String|BucketizedFloat|RawFloat)Columns?(?:E|\b)", n)
            if m and not (f and f["file"].startswith("python/")):
                out.add(snake(m.group(1)))
                continue
            if f is None or f.get("body") is None or not f["file"].startswith("python/") or d > 4:
                continue
            for y in callees(f):
                todo.append((y, d + 1))
        return out


def canon(t):
    return (t or "").replace("const ", "").replace("&", "").replace("std::", "").strip()


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "<(" and 1 or ch in ">)" and -1 or 0
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def camel(s):
    p = s.split("_")
    return p[0] + "".join(x.capitalize() for x in p[1:])


def protos(c):
    """JSON shape of the messages: {message: {json name: (type, always printed)}}."""
    out = {}
    d = os.path.join(c.db["repo"], "src", "proto")
    for n in sorted(os.listdir(d)):
        if not n.endswith(".proto"):
            continue
        s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(d, n)).read(), flags=re.S)
        for m in re.finditer(r"message\s+(\w+)\s*\{([^}]*)\}", s):
            fs = {}
            for r, t, name in re.findall(r"(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+", m.group(2)):
                fs[camel(name)] = [t + ("*" if r else ""), None, name, bool(r)]
            out[m.group(1)] = fs
    for m in out.values():
        for k, v in m.items():
            prim = v[0].rstrip("*") not in out
            m[k] = (v[0], prim or v[3], v[2])
    return out


def check(c):
    c.rules.append("extraction of the pybind11 registrations (names, parameter types, keyword names, defaults, bound functions) from the type-checked sources; abstract interpretation of the Python package over every path; "
                   "binding of each native call, kinds of columns, file names and model fields compared with what the native side defines")
    N = Native(c)
    root = os.path.join(c.db["repo"], "gbdt")
    mods = {}
    for n in sorted(os.listdir(root)) if os.path.isdir(root) else []:
        if n.endswith(".py"):
            try:
                mods[n] = ast.parse(open(os.path.join(root, n)).read())
            except SyntaxError as u:
                c.viol("syntax:" + n, "gbdt/%s does not parse: %s" % (n, u), "gbdt/%s:%s" % (n, u.lineno))
    if not mods or not N.cls.get("DataStore"):
        c.undecided("package", "gbdt", "package or registrations not found")
        return
    js = protos(c)
    for w, n, what in N.bad:
        c.viol("registration:" + n, "the registration of %s gives %s: every call fails" % (n, what), w)
    registrations(c, N)
    tokens = kindnames(c, N)
    jsonoptions(c)
    A = Py(c, N, mods, js, tokens)
    A.imports()
    A.all()
    c.counts["native_operations"] = sum(len(v) for v in N.cls.values())
    c.counts["python_functions"] = A.n
    c.counts["paths"] = A.np
    c.counts["native_calls_bound"] = A.nc


def registrations(c, N):
    """A registered name is bound to the operation of that kind; keyword names follow the parameters."""
    for cls, ops in sorted(N.cls.items(), key=str):
        for n, s in sorted(ops.items()):
            if s is None:
                continue
            k = kind_of(n)
            if k and s["fn"]:
                ks = N.kind(s["fn"])
                if ks and ks != {k}:
                    c.viol("bound:%s.%s" % (cls, n), "%s.%s is bound to an operation on %s columns" % (cls, n, "/".join(sorted(ks))), s["where"])
                elif ks:
                    c.ok("bound:%s.%s" % (cls, n), s["where"])
            for i, a in enumerate(s["names"]):
                if a is None or i >= len(s["cnames"]):
                    continue
                mine = s["cnames"][i] or ""
                other = [j for j, x in enumerate(s["cnames"]) if j != i and x and (x == a)]
                if mine != a and other:
                    c.viol("keyword:%s.%s" % (cls, n), "%s: keyword '%s' is given to the parameter '%s'" % (n, a, mine), s["where"])
            # optional arguments: required ones after optional ones are fine with keywords, but a default must fit
    for cls in ("StringColumn", "RawFloatColumn", "BucketizedFloatColumn"):
        if cls not in N.cls:
            c.viol("class:" + cls, "the native module registers no class %s" % cls, "src/python/column_py.cc")


def kindnames(c, N):
    """{kind string GetColumnType returns: column class}."""
    s = N.cls["DataStore"].get("get_column_type")
    out = {}
    f = c.db["fns"].get(s["fn"]) if s else None
    if f is None:
        c.undecided("kind-names", "", "get_column_type")
        return out
    en = None
    for y in nodes(f["body"]):
        if y.get("s") == "switch":
            en = y
    found = {}
    I = c.enter(f)
    for e in I.events:
        if e.kind == "return" and e.depth == 2 and isinstance(e.val, Term):
            for g, v in leaves_of(e.val, e.pc):
                if v.op != "str":
                    continue
                for a in batoms(g):
                    m = re.search(r"k(String|BucketizedFloat|RawFloat)Column", str(a))
                    found.setdefault(v.a[0], []).append((g, a))
    vals = {}
    for en_, d in c.db["enums"].items():
        for x in d if isinstance(d, list) else []:
            m = re.search(r"::k(String|BucketizedFloat|RawFloat)Column$", str(x.get("name")))
            if m:
                vals[m.group(1) + "Column"] = x["v"]
    # evaluate with the kind fixed
    ret = [e for e in I.events if e.kind == "return" and e.depth == 2 and isinstance(e.val, Term)]
    for cl, num in sorted(vals.items()):
        env = EV.Env("kind" + cl)

        def sem(e, k, num=num):
            if isinstance(k, tuple) and k and (k[0] == "sel" and str(k[-1]) == "type_" or k[0] == "ret" and str(k[1]).split("::")[-1] == "type"):
                return Fraction(int(num))
            if isinstance(k, tuple) and k and (k[0] == "truth" or k[0] == "ret" or k[0] == "sel" and k[-1] == "data_store_"):
                return Fraction(1)
            return None
        env.sem = sem
        got = None
        try:
            for e in ret:
                if EV.ev(B(e.pc), env):
                    got = EV.ev(e.val, env)
        except (EV.Unknown, EV.Stuck):
            got = None
        if isinstance(got, tuple) and len(got) == 2 and got[0] == "str":
            got = got[1]
        if isinstance(got, str):
            out[got] = cl
    if len(out) < 3:
        out = syntactic(c, f) or out
    if len(out) == 3:
        c.ok("kind-names", "src/%s:%s" % (f["file"], f["l"]), ", ".join("%s: %s" % x for x in sorted(out.items())))
    else:
        c.undecided("kind-names", "src/%s:%s" % (f["file"], f["l"]), "strings of get_column_type: %s" % out)
    return out


def leaves_of(t, g):
    if t.op == "ite":
        return leaves_of(t.a[1], band(g, t.a[0])) + leaves_of(t.a[2], band(g, bnot(t.a[0])))
    return [(g, t)]


def syntactic(c, f):
    """case kX: return "..." pairs."""
    out, cur = {}, []
    for y in nodes_in_order(f["body"]):
        s = str(y.get("name") or "")
        m = re.search(r"k(String|BucketizedFloat|RawFloat)Column$", s)
        if m:
            cur.append(m.group(1) + "Column")
        if y.get("k") == "str" and cur and y.get("v") in KINDS + ("float",):
            out[y["v"]] = cur[-1]
    return out if len(out) == 3 else {}


def nodes_in_order(x):
    if isinstance(x, dict):
        yield x
        for k, v in x.items():
            yield from nodes_in_order(v)
    elif isinstance(x, list):
        for y in x:
            yield from nodes_in_order(y)


def jsonoptions(c):
    """Models are written with every plain field and under the JSON names."""
    f = c.fn("JsonUtils::ToJson")
    I = c.enter(f, mem=True)
    where = "src/%s:%s" % (f["file"], f["l"])
    calls = [e for e in I.events if e.kind == "call" and e.fn.endswith("BinaryToJsonString")]
    if not calls:
        c.undecided("json-options", where, "no call of the JSON writer found")
        return
    for e in calls:
        o = [a for a in e.args if isinstance(a, Term)][-1]
        val = {}
        for w in I.events[:I.events.index(e)]:
            if w.kind == "write" and w.path and w.path[-1][0] == "." and w.path[-1][1] in ("always_print_primitive_fields", "preserve_proto_field_names", "always_print_enums_as_ints"):
                if w.pc == 1:
                    val[w.path[-1][1]] = w.val
        a = val.get("always_print_primitive_fields")
        if a is None or a == B(0) or str(a) in ("0", "false"):
            c.viol("json-options:defaults", "models are written without fields that have their default value (a score or threshold of 0): the visualizer looks them up unconditionally", "src/%s:%s" % (e.file, e.line))
        elif str(val.get("preserve_proto_field_names")) in ("1", "true", "True") or val.get("preserve_proto_field_names") == B(1):
            c.viol("json-options:names", "models are written with underscore names (left_child); the package reads leftChild", "src/%s:%s" % (e.file, e.line))
        else:
            c.ok("json-options", "src/%s:%s" % (e.file, e.line))


PLAIN = ("param",)


def srcs(v):
    """Parameters a value is made of."""
    out = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == "param":
                out.add(x[1])
            elif len(x) > 1 and x[0] == "native" and isinstance(x[2], tuple) and x[2][0] == "of":
                todo.append(x[2][1])
            else:
                todo += list(x)
        elif isinstance(x, (list,)):
            todo += x
    return out


class Py:
    def __init__(self, c, N, mods, js, tokens):
        self.c, self.N, self.mods, self.js, self.tokens = c, N, mods, js, tokens
        dom = {"kind": sorted(tokens) or list(KINDS), "type_overrides": [None, "string", "float", "raw_float", "bucketized_float"]}
        jt = {m: {k: (v[0], v[1]) for k, v in fs.items()} for m, fs in js.items()}
        self.I = Interp(mods, {k: v for k, v in N.cls.items()}, dom, jt)
        self.n = self.np = self.nc = 0
        self.seen = set()

    def at(self, mod, line):
        return "gbdt/%s:%s" % (mod, line)

    def imports(self):
        c = self.c
        for m, t in self.mods.items():
            for x in ast.walk(t):
                if isinstance(x, ast.ImportFrom) and x.module and (x.module == "_libgbdt" or x.module.split(".")[-1] == "libgbdt") and x.level:
                    for a in x.names:
                        if a.name not in ("libgbdt",) and a.name not in self.N.cls and a.name not in self.N.cls[None]:
                            c.viol("import:%s:%s" % (m, a.name), "gbdt/%s imports %s, which the native module does not define" % (m, a.name), self.at(m, x.lineno))
                elif isinstance(x, ast.ImportFrom) and x.level == 1 and x.module and x.module + ".py" in self.mods:
                    names = {y.name for y in self.mods[x.module + ".py"].body if isinstance(y, (ast.FunctionDef, ast.ClassDef))}
                    names |= {t_.id for y in self.mods[x.module + ".py"].body if isinstance(y, ast.Assign) for t_ in y.targets if isinstance(t_, ast.Name)}
                    names |= {a.asname or a.name for y in ast.walk(self.mods[x.module + ".py"]) if isinstance(y, (ast.ImportFrom, ast.Import)) for a in y.names}
                    for a in x.names:
                        if a.name not in names:
                            c.viol("import:%s:%s" % (m, a.name), "gbdt/%s imports %s, which gbdt/%s.py does not define" % (m, a.name, x.module), self.at(m, x.lineno))

    def selfv(self, cls):
        d = {}
        if cls in self.N.cls:
            for a, k in self.I.attrs.items():
                if k == cls:
                    d[a] = ("native", cls, ("of", ("this", cls)))
        else:
            f = self.I.classes[cls][2].get("__init__")
            if f is not None:
                for x in ast.walk(f):
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute):
                        if "json" in ast.dump(x.value) or isinstance(x.value, ast.Name):
                            d[x.targets[0].attr] = ("json", "Forest", ("root",))
        return ("self", cls, Inst(d, None))

    def all(self):
        for m, t in sorted(self.mods.items()):
            for x in t.body:
                if isinstance(x, ast.FunctionDef) and x.name != "main":
                    self.one(m, x, None)
                if isinstance(x, ast.ClassDef):
                    for f in x.body:
                        if isinstance(f, ast.FunctionDef):
                            self.one(m, f, x.name)

    def named(self, f):
        """The function is used by another function of the package."""
        for t in self.mods.values():
            for g in ast.walk(t):
                if isinstance(g, ast.FunctionDef) and g is not f:
                    for x in ast.walk(g):
                        if isinstance(x, ast.Attribute) and x.attr == f.name or isinstance(x, ast.Name) and x.id == f.name:
                            return True
        return False

    def one(self, m, f, cls):
        c = self.c
        name = (cls + "." if cls else "") + f.name
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
        s = self.selfv(cls) if cls and not static else None
        ps = [a.arg for a in f.args.args][(1 if s is not None else 0):]
        args = [("param", p) for p in ps]
        if cls and cls not in self.N.cls and "node" in ps:
            args = [("json", "TreeNode", ("p",)) if p == "node" else ("json", "Split", ("p",)) if p == "split" else a for p, a in zip(ps, args)]
        if any(p == "split" for p in ps):
            return      # looked at from its caller, where the kind of split is known
        if f.name.startswith("_") and f.name != "__init__" and self.named(f):
            return      # a helper, judged through its callers
        where = self.at(m, f.lineno)
        if f.name == "__init__" and s is not None:
            s = ("self", cls, Inst({}, None))
        self.n += 1
        try:
            paths = self.I.paths(Fn(f, {}, m, cls, s), args)
        except Unk as u:
            c.undecided("forward:" + name, where, "not followed: %s" % u)
            return
        self.np += len(paths)
        bad = len(c.viols)
        for r, raised, evs, memo, ys in paths:
            self.memo = memo
            for e in evs:
                self.event(e, name)
        self.memo = {}
        self.special(m, f, cls, name, ps, paths, where)
        if len(c.viols) == bad:
            c.ok("forward:" + name, where, "%d paths" % len(paths))

    # ------------------------------------------------------------------ single calls
    def event(self, e, name):
        c = self.c
        if e[0] == "missing":
            c.viol("missing:%s.%s" % (e[1], e[2]), "%s uses %s.%s, which does not exist" % (name, e[1], e[2]), self.at(e[4], e[3]))
        elif e[0] == "nokey":
            c.viol("field:%s.%s" % (e[1], e[2]), "%s looks up '%s' in a %s of the model; models have %s" % (name, e[2], e[1], ", ".join(sorted(self.js[e[1]]))), self.at(e[4], e[3]))
        elif e[0] == "absent":
            c.viol("absent:%s.%s:%s" % (e[1], e[2], name), "%s looks up '%s' in a %s that does not have it" % (name, e[2], e[1]), self.at(e[4], e[3]))
        elif e[0] == "call":
            self.bind(e, name)

    def bind(self, e, name):
        c = self.c
        _, cls, n, recv, args, kw, line, mod = e
        where = self.at(mod, line)
        self.nc += 1
        op = "%s%s" % (cls + "." if cls else "libgbdt.", n)
        sig = self.N.cls.get(cls, {}).get(n)
        if sig is None and n in self.N.cls.get(cls, {}):
            return None
        if sig is None:
            if n == "__str__" or n == "__repr__":
                return None
            c.viol("missing:" + op, "%s calls %s, which the native module does not define" % (name, op), where)
            return None
        b = {}
        if len(args) > len(sig["ps"]):
            c.viol("arity:%s:%s" % (op, name), "%s passes %d arguments to %s, which takes %d" % (name, len(args), op, len(sig["ps"])), where)
            return None
        for i, a in enumerate(args):
            b[i] = a
        for k, v in kw.items():
            if k not in sig["names"]:
                c.viol("keyword:%s:%s" % (op, k), "%s passes '%s' to %s, which has no argument of that name" % (name, k, op), where)
                return None
            i = sig["names"].index(k)
            if i in b:
                c.viol("keyword:%s:%s" % (op, k), "%s passes '%s' to %s twice" % (name, k, op), where)
                return None
            b[i] = v
        miss = [i for i in range(len(sig["ps"])) if i not in b and not sig["defaults"][i]]
        if miss:
            c.viol("arity:%s:%s" % (op, name), "%s calls %s without %s" % (name, op, ", ".join(str(sig["names"][i] or "argument %d" % (i + 1)) for i in miss)), where)
            return None
        for i, v in b.items():
            t = self.vtype(v)
            want = self.ptype(sig["ps"][i])
            if t and want and not fits(t, want):
                c.viol("type:%s:%d" % (op, i), "%s passes %s as %s of %s, which expects %s" % (name, t, sig["names"][i] or "argument %d" % (i + 1), op, want), where)
            pn = sig["names"][i] or (sig["cnames"][i] if i < len(sig["cnames"]) else None)
            q = v[1] if v[0] == "param" else None
            known = [x for x in (sig["names"] if sig["names"] and sig["names"][0] else sig["cnames"]) if x]
            if q and pn and q != pn and q in known:
                c.viol("swapped:%s:%s" % (op, pn), "%s passes its '%s' to %s as '%s'" % (name, q, op, pn), where)
        if n.startswith("add_"):
            self.added(n, b, name, where)
        if n == "load_tsv":
            for i, v in b.items():
                k, q = kind_of(sig["names"][i] or ""), kind_of(" ".join(srcs(v)))
                if k and q and k != q:
                    c.viol("kind:load_tsv:" + k, "%s loads the %s columns as %s columns" % (name, q, k), where)
        return b

    def added(self, n, b, name, where):
        """The kind of column added is the kind of the values."""
        c = self.c
        k = kind_of(n)
        v = b.get(1)
        src = None
        if v is None:
            return
        for x in natives(v):
            if x[1].endswith("Column"):
                src = snake(x[1][:-6])
        if src is None:
            for p in srcs(v):
                src = src or kind_of(p)
        key = b.get(0)
        if key is not None and key[0] == "val" and v[0] == "key":
            c.viol("swapped:%s:%s" % (name, n), "%s gives %s the values where the name belongs" % (name, n), where)
        if src and k and src != k:
            c.viol("kind:%s:%s" % (name, n), "%s adds the values of a %s column with %s" % (name, src, n), where)

    def vtype(self, v):
        if v[0] == "native":
            return v[1]
        if v[0] == "wrap":
            return "the Python %s" % v[1]
        if v[0] == "self":
            return "the Python %s" % v[1]
        if v[0] == "const":
            return {"str": "string", "int": "int", "float": "float", "bool": "bool", "NoneType": "None"}.get(type(v[1]).__name__)
        if v[0] in ("str", "jsonof", "jsontext"):
            return "string"
        if v[0] in ("list", "comp"):
            return "list"
        if v[0] == "dict":
            return "dict"
        if v[0] in ("len", "int"):
            return "int"
        if v == ("param", "base_forest") and not any("base_forest" in str(k) and self.absent(k, x) for k, x in self.memo.items()):
            return "the Python Forest"
        if v[0] == "param":
            return {"output_dir": "string", "random_seed": "int", "num_threads": "int", "config": "dict", "checkpoints": "list", "index": "list", "data_store": "the Python DataStore"}.get(v[1])
        return None

    def absent(self, k, x):
        """The choice taken says that the value is None or false."""
        return k[0] == "truth" and x == 1 or k[0] == "eq" and ("const", None) in k and x == 0 or k[0] == "isinstance" and x == 1

    def ptype(self, t):
        t = canon(t)
        for k, v in self.N.pyname.items():
            if t in (k + " *", k, k.split("::")[-1] + " *", k.split("::")[-1]):
                return v
        if t.startswith(("basic_string", "string")):
            return "string"
        if t.startswith(("vector", "list")):
            return "list"
        if t in ("int", "long", "unsigned int", "uint"):
            return "int"
        if t in ("float", "double"):
            return "float"
        return None

    # ------------------------------------------------------------------ whole operations
    def special(self, m, f, cls, name, ps, paths, where):
        c = self.c
        if cls in self.N.cls and cls and f.name != "__init__":
            self.same_name(f, cls, name, ps, paths, where)
        if f.name == "_get_col" or cls == "DataStore" and f.name == "__getitem__":
            self.getter(name, ps, paths, where)
        if cls == "DataStore" and f.name in ("slice", "copy"):
            self.slice(name, paths, where)
        if f.name == "from_df":
            self.from_df(name, paths, where)
        if f.name in ("from_dict", "from_tsvs"):
            self.loaded(name, f.name, ps, paths, where)
        if f.name == "predict_at_checkpoints":
            self.files(name, ps, paths, where)
        if cls is None and f.name == "train":
            self.train(name, ps, paths, where)
        if cls == "Forest" and f.name == "__str__":
            self.forwards(name, "as_json", ps, paths, where)
        if cls == "DataStore" and f.name == "keys":
            self.forwards(name, "cols", ps, paths, where)

    def same_name(self, f, cls, name, ps, paths, where):
        ops = self.N.cls[cls]
        if f.name in ops:
            self.forwards(name, f.name, ps, paths, where)

    def forwards(self, name, op, ps, paths, where):
        c = self.c
        for r, raised, evs, memo, ys in paths:
            if raised:
                continue
            ours = [e for e in evs if e[0] == "call" and e[3] is not None and e[3][0] == "native" and e[3][2] == ("of", ("this", e[1]))]
            calls = [e for e in ours if e[2] == op]
            if op in ("__repr__", "__str__"):
                calls = [e for e in ours if e[2] in ("__repr__", "__str__")]
            if not calls:
                o = ", ".join(sorted({e[2] for e in ours})) or "nothing"
                c.viol("forward:" + name, "%s does not forward to the native %s (it calls %s)" % (name, op, o), where)
                return
            if len(calls) > 1 and op.startswith(("add_", "erase")):
                c.viol("forward:" + name, "%s calls the native %s %d times" % (name, op, len(calls)), where)
                return
            e = calls[-1]
            sig = self.N.cls[e[1]].get(e[2])
            if sig is None:
                return
            given = list(e[4])
            for i, p in enumerate(ps):
                if i < len(given) and len(ps) == len(sig["ps"]):
                    q = srcs(given[i])
                    if q and p not in q:
                        c.viol("forward:%s:%s" % (name, p), "%s passes '%s' to the native %s where its argument '%s' belongs" % (name, "/".join(sorted(q)), op, p), where)
                        return
            rt = sig["rt"] or "void"
            if rt != "void" and r is not None:
                k = ("ncall", e[1], e[2], freeze(e[3]), tuple(freeze(a) for a in e[4]), tuple(sorted((x, freeze(v)) for x, v in e[5].items())))
                if r == const(None):
                    c.viol("forward:" + name, "%s does not return what the native %s returns" % (name, op), where)
                    return

    def getter(self, name, ps, paths, where):
        c = self.c
        for r, raised, evs, memo, ys in paths:
            if raised or r is None or r[0] != "native" or not r[1].endswith("Column"):
                if not raised and r is not None and r == const(None):
                    c.viol("kind:%s:none" % name, "%s returns nothing for some kind of column" % name, where)
                continue
            kinds = [(k, v) for k, v in memo.items() if isinstance(k, tuple) and k[0] == "dom" and isinstance(k[1], tuple) and k[1][0] == "dom" and k[1][1] == "kind"]
            for k, v in kinds:
                s = self.I.domain["kind"][v]
                if s in self.tokens and self.tokens[s] != r[1]:
                    c.viol("kind:%s:%s" % (name, s), "%s fetches columns of kind '%s' (a %s) as %s: the native lookup fails" % (name, s, self.tokens[s], r[1]), where)
            if not kinds:
                c.undecided("kind:" + name, where, "the column's kind is not asked for")

    def slice(self, name, paths, where):
        c = self.c
        if not self.tokens:
            return
        got = {}
        for r, raised, evs, memo, ys in paths:
            if raised:
                continue
            kinds = [self.I.domain["kind"][v] for k, v in memo.items() if isinstance(k, tuple) and k[0] == "dom" and isinstance(k[1], tuple) and k[1][0] == "dom" and k[1][1] == "kind"]
            adds = [e for e in evs if e[0] == "call" and e[2].startswith("add_")]
            for s in kinds[:1]:
                got.setdefault(s, set()).add(tuple(kind_of(e[2]) for e in adds))
            for e in adds:
                if e[4] and not any(x[0] == "elem" or x[0] == "key" for x in [e[4][0]]) and e[4][0][0] == "const":
                    c.viol("slice-name:" + name, "%s adds every column under one name" % name, where)
        for s in sorted(self.tokens):
            if got and s in got and any(len(a) == 0 for a in got[s]):
                c.viol("slice:%s:%s" % (name, s), "%s drops the columns of kind '%s'" % (name, s), where)
            if s in got and any(snake(self.tokens[s][:-6]) not in a for a in got[s] if a):
                c.viol("slice:%s:%s" % (name, s), "%s does not copy the columns of kind '%s' as such" % (name, s), where)

    def from_df(self, name, paths, where):
        c = self.c
        want = {None: "bucketized_float", "string": "string", "float": "raw_float", "raw_float": "raw_float", "bucketized_float": "bucketized_float"}
        n = 0
        for r, raised, evs, memo, ys in paths:
            if raised:
                continue
            for e in evs:
                if e[0] != "call" or not e[2].startswith("add_") or not e[4]:
                    continue
                key = freeze(e[4][0])
                numeric = "include" in str(key)
                ov = [v for k, v in memo.items() if isinstance(k, tuple) and k[0] == "dom" and k[1] == ("override", "type_overrides") and k[2] == key]
                if not numeric:
                    continue
                n += 1
                w = want[self.I.domain["type_overrides"][ov[0]]] if ov else None
                if ov and kind_of(e[2]) != w:
                    c.viol("override:%s" % (self.I.domain["type_overrides"][ov[0]]), "%s loads a numeric column whose type is given as %s with %s" % (name, self.I.domain["type_overrides"][ov[0]], e[2]), where)
        c.counts["from_df_cases"] = n

    def loaded(self, name, op, ps, paths, where):
        """Every group of columns the caller names is handed to the native store as that kind."""
        c = self.c
        for r, raised, evs, memo, ys in paths:
            if raised:
                continue
            got = set()
            for e in evs:
                if e[0] == "call" and (e[2].startswith("add_") or e[2] == "load_tsv"):
                    for v in list(e[4]) + list(e[5].values()):
                        got |= srcs(v)
            for p in ps:
                if kind_of(p) and p not in got:
                    c.viol("dropped:%s:%s" % (name, p), "%s does not load its '%s'" % (name, p), where)
            if "tsvs" in ps and "tsvs" not in got:
                c.viol("dropped:%s:tsvs" % name, "%s does not load its 'tsvs'" % name, where)
            if not (r is not None and r[0] == "wrap"):
                c.viol("result:" + name, "%s does not return a DataStore" % name, where)

    def files(self, name, ps, paths, where):
        c = self.c
        pat = native_pattern(c)
        for r, raised, evs, memo, ys in paths:
            if raised:
                continue
            outs = [e for e in evs if e[0] == "call" and e[2] == "predict_and_output"]
            opens = [e for e in evs if e[0] == "open"]
            if not outs or not opens:
                c.undecided("files:" + name, where, "no score files written or read")
                return
            _, cls, n, recv, args, kw, line, mod = outs[0]
            sig = self.N.cls[cls][n]
            b = dict(enumerate(args))
            cn = sig["cnames"]
            d = b.get(len(sig["ps"]) - 1)
            p = opens[0][1][0]
            if p[0] != "str" or d is None:
                if p[0] == "res" and "path.join" in str(p[1]):
                    inner = p[2]
                    p = ("str", (("hole", freeze(inner[0])), "/") + tuple(inner[1][1] if inner[1][0] == "str" else parts(inner[1])))
                else:
                    c.undecided("files:" + name, where, "file name %s" % (p,))
                    return
            ps_ = list(p[1])
            dirs = freeze(d)
            flat = ""
            if isinstance(d, tuple) and d[0] == "str" and ps_[:len(d[1])] == list(d[1]):
                flat, ps_ = "{dir}", ps_[len(d[1]):]
            elif isinstance(d, tuple) and d[0] == "str" and d[1] and isinstance(d[1][-1], str) and len(ps_) >= len(d[1]) and ps_[:len(d[1]) - 1] == list(d[1])[:-1] and \
                    isinstance(ps_[len(d[1]) - 1], str) and ps_[len(d[1]) - 1].startswith(d[1][-1]):
                flat, ps_ = "{dir}", [ps_[len(d[1]) - 1][len(d[1][-1]):]] + ps_[len(d[1]):]
            ok = True
            for x in ps_:
                if isinstance(x, str):
                    flat += x
                elif x[1] == dirs:
                    flat += "{dir}"
                elif x[1][0] == "elem" and x[1][1] == freeze(b.get(1)):
                    flat += "{n}"
                else:
                    flat += "{?}"
                    ok = False
            if pat is None:
                c.undecided("files:" + name, where, "native score file name")
                return
            how = provenance(d)
            if how == "shared":
                c.viol("files-shared:" + name, "%s writes and reads score files in a directory it shares with other calls, so that it may return scores it did not ask for" % name, where)
            elif how is None:
                c.undecided("files-shared:" + name, where, "origin of the directory %s" % (str(d)[:80],))
            else:
                c.ok("files-shared:" + name, where)
            if isinstance(d, tuple) and d[0] in ("str", "const"):
                flat = flat.replace("".join(parts(d)) if d[0] == "const" else "\0", "{dir}")
            if flat != pat:
                if "{?}" in flat and flat.replace("{?}", "") in pat.replace("{dir}", "").replace("{n}", ""):
                    c.undecided("files:" + name, where, "file name %s" % flat)
                else:
                    c.viol("files:" + name, "%s reads %s, the native side writes %s" % (name, flat, pat), where)
                return
            for y in ys:
                if y[0] == "tuple" and len(y[1]) == 2 and y[1][0][0] == "elem" and y[1][0][1] != freeze(b.get(1)):
                    c.viol("files-order:" + name, "%s does not label the scores with their checkpoint" % name, where)

    def train(self, name, ps, paths, where):
        c = self.c
        conf = {v[2]: k for k, v in self.js.get("Config", {}).items()}
        names = set(conf) | set(self.js.get("Config", {}))
        for r, raised, evs, memo, ys in paths:
            for e in evs:
                if e[0] == "store" and e[1] == ("param", "config"):
                    k = e[2]
                    if k[0] == "const" and names and k[1] not in names:
                        c.viol("config:%s" % k[1], "%s sets the option '%s', which the native configuration does not have" % (name, k[1]), self.at(e[5], e[4]))
                    if k[0] == "const" and conf.get(k[1], k[1]) in ("floatFeature", "categoricalFeature"):
                        want = "bucketized_float_cols" if conf.get(k[1], k[1]) == "floatFeature" else "string_cols"
                        got = {x[2] for x in ncalls(e[3])} & {"bucketized_float_cols", "string_cols", "raw_float_cols", "cols"}
                        if got and got != {want}:
                            c.viol("config-kind:%s" % k[1], "%s puts the columns from %s into '%s'" % (name, "/".join(sorted(got)), k[1]), self.at(e[5], e[4]))
            if raised:
                continue
            t = [e for e in evs if e[0] == "call" and e[1] is None and e[2] == "train"]
            if not t:
                c.viol("forward:train", "%s returns without training" % name, where)
                return
            self.memo = memo
            b = self.bind(t[-1], name) or {}
            sig = self.N.cls[None]["train"]
            for i, n in enumerate(sig["names"]):
                v = b.get(i)
                if n in ps and v is None:
                    c.viol("dropped:train:%s" % n, "%s does not pass its '%s' on to the native training" % (name, n), where)
                elif n in ps and v is not None and n not in srcs(v) and v != const(None):
                    if v[0] == "const" or srcs(v):
                        c.viol("dropped:train:%s" % n, "%s passes something other than its '%s' to the native training" % (name, n), where)


def fits(t, want):
    if t == want:
        return True
    if t.startswith("the Python"):
        return False
    if t == "None":
        return want in ("Forest", "DataStore")
    if t in ("int", "float", "bool") and want in ("int", "float"):
        return not (t == "float" and want == "int")
    return False


def natives(v):
    todo, out = [v], []
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "native":
                out.append(x)
                continue
            todo += [y for y in x if isinstance(y, (tuple, list))]
        elif isinstance(x, list):
            todo += x
    return out


def ncalls(v):
    todo, out = [v], []
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            if len(x) > 3 and x[0] == "ncall":
                out.append(x)
            todo += [y for y in x if isinstance(y, (tuple, list))]
    return out


FRESH = {"mkdtemp", "TemporaryDirectory", "uuid4", "uuid1", "token_hex", "mkstemp", "NamedTemporaryFile"}
SHARED = {"gettempdir", "gettempdirb", "getcwd", "tempdir", "join", "abspath", "realpath", "expanduser", "dirname", "environ", "getenv", "get", "getpid", "format", "str"}


def provenance(d):
    """Whether a directory name is new with every evaluation, or one that other calls use as well."""
    names, todo, other = [], [d], False
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, (tuple, list)):
            if x and x[0] == "res" and len(x) > 1:
                names.append(str(x[1]).split(".")[-1])
                todo.extend(x[2:])
            elif x and isinstance(x[0], str) and x[0] in ("str", "const", "param", "hole", "attr", "global", "selfattr"):
                if x[0] in ("global", "selfattr", "attr"):
                    names.append("get")
                todo.extend(y for y in x[1:] if isinstance(y, (tuple, list, dict)))
            else:
                todo.extend(y for y in x if isinstance(y, (tuple, list, dict)))
    if any(n in FRESH for n in names):
        return "fresh"
    return "shared" if all(n in SHARED for n in names) else None


def native_pattern(c):
    """Name of the score files, from the evaluation that writes them."""
    for f in c.find("EvaluateForest", 4, opt=True):
        I = c.enter(f, mem=True)
        for e in I.events:
            vals = []
            if e.kind == "stream" and e.op in ("ctor", "open"):
                vals = e.args
            if e.kind == "call" and "WriteStringToFile" in e.fn:
                vals = e.args
            for v in vals:
                if isinstance(v, Term):
                    for x in subterms(v):
                        if x.op in ("fmt", "cat"):
                            p = pattern(x, f)
                            if p and "score" in p:
                                return p
    return None


def pattern(x, f):
    if x.op == "str":
        return x.a[0]
    if x.op == "fmt":
        s = x.a[0] if isinstance(x.a[0], str) else x.a[0].a[0]
        vs = x.a[1] if isinstance(x.a[1], tuple) else x.a[1:]
        out = s
        for i, v in enumerate(vs):
            out = re.sub(r"\{%d(:[^}]*)?\}" % i, lambda m: hole(v, f), out)
        i = iter(vs)
        out = re.sub(r"\{\}", lambda m: hole(next(i), f), out)
        return out
    if x.op == "cat":
        ps = x.a[0] if isinstance(x.a[0], tuple) else x.a
        return "".join((p if isinstance(p, str) else pattern(p, f) or "{?}") for p in ps)
    return hole(x, f)


def hole(v, f):
    if isinstance(v, Term):
        for x in subterms(v):
            if x.op == "sym" and x.a[0] == "arg" or x.op == "init" and x.a[0][0] == "arg":
                k = x.a[1] if x.op == "sym" else x.a[0][1]
                t = f["params"][k]["t"]
                if "basic_string" in t and "list" not in t:
                    return "{dir}"
    return "{n}"
