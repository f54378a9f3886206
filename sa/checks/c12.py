"""C12: a data store holds uniquely named columns of equal length."""
import random

from ..core import *
from .c22 import run
from .c36 import Bad
from .recmodel import *
from .colmodel import default

OP = {"Column::size": "pure", "Column::name": "pure", "Column::type": "pure", "ReadLine": "effect", "FileExists": "pure",
      "Column::CreateStringColumn": "pure", "Column::CreateBucketizedFloatColumn": "pure", "Column::CreateRawFloatColumn": "pure"}
KINDS = ["StringColumn", "BucketizedFloatColumn", "RawFloatColumn"]
HEADERS = {"# dtype=strings": 0, "# dtype=bucketized_floats": 1, "# dtype=raw_floats": 2}


class C:
    """A column, known by its name, kind and length."""

    def __init__(self, name, kind, size):
        self.name, self.kind, self.size = name, kind, size

    def __str__(self):
        return "%s '%s' of %d rows" % (KINDS[self.kind], self.name, self.size)


class Store:
    def __init__(self, c):
        self.c, self.ms, self.cols = c, {}, []
        self.types = None
        for n, e in c.db["enums"].items():
            if n.endswith("Column::ColumnType"):
                self.types = e
        self.enum = [enum_value(self.types, "k" + k) for k in KINDS]

    def machine(self, cls, m):
        r = self.ms.get((cls, m))
        if r is None:
            f = self.c.method("gbdt::" + cls, m)
            I = self.c.enter(f, mem=True, opaque=OP)
            if not I.unmodelled:
                pass
            r = self.ms[(cls, m)] = (f, I, I.value, I.memval(("this",)))
        return r

    def where(self, m, cls="DataStore"):
        f = self.machine(cls, m)[0]
        return "src/%s:%s" % (f["file"], f["l"])

    def new(self, name, kind, size):
        self.cols.append(C(name, kind, size))
        return ("ptr", len(self.cols) - 1)

    def col(self, p):
        return self.cols[p[1]] if isinstance(p, tuple) and len(p) == 2 and p[0] == "ptr" else None

    def env(self, this, arg=None, files=None):
        env = EV.Env(0)
        env.steps = 10 ** 6
        env.made = []

        def sem(env, k):
            if k == ("init", ("this",)):
                return this
            if k[0] == "init" and k[1][0] == "arg" or k[0] == "sym" and k[1] == "arg":
                return arg
            if k[0] == "init" and k[1][0] == "*" and isinstance(k[1][1], tuple) and k[1][1][0] == "nameof":
                return ("str", k[1][1][1])
            if k[0] == "ret":
                n = fnname(k)
                if n == "FileExists":
                    return k[2][0] in [("str", x) for x in files or {}]
                p = self.col(k[2][0]) if k[2] else None
                if p is not None and n == "name":
                    return ("nameof", p.name)
                if p is not None and n == "size":
                    return F(p.size)
                if p is not None and n == "type":
                    return F(self.enum[p.kind])
                if p is None and n in ("name", "size", "type"):
                    raise EV.Stuck("%s of a column that is not there" % n)
            if k[0] == "default":
                return default(k[1])
            if k[0] == "code" and isinstance(k[1], tuple):
                return F(k[1][1]) if k[1][:1] == ("status",) else None
            return None

        def first(t, env):
            n = str(t.a[0]).split("::")[-1]
            if n == "ReadLine":
                return ("str", files.get("header"))
            if n.startswith("Create") and n[6:] in KINDS:
                key = (n, t)
                for a, b in env.made:
                    if a is t:
                        return b
                name = EV.ev(t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1][0], env)
                v = ("ptr", len(self.cols))
                self.cols.append(C(name[1], KINDS.index(n[6:]), files["rows"]))
                env.made.append((t, v))
                return v
            return None
        env.sem, env.first = sem, first
        return env

    def do(self, cls, m, this, arg=None, files=None):
        f, I, v, out = self.machine(cls, m)
        env = self.env(this, arg, files)
        r = EV.ev(v, env) if v is not None and v.op != "unit" else None
        if r is not None and "Status" in f.get("rt", ""):
            r = EV.num_(EV.ev(L.code(v), env))
        return r, EV.ev(out, env)


def enum_value(e, name):
    """Value of an enumerator."""
    for x in e if isinstance(e, list) else e.get("values") or e.get("consts") or []:
        n, v = (x["name"], x["v"]) if isinstance(x, dict) else x
        if n.split("::")[-1] == name:
            return int(v)
    raise Missing("enumerator " + name)


def check(c):
    c.rules.append("Add, RemoveColumnIfExists, the look-ups and counters of DataStore and the lazy loading of FlatfilesDataStore are summarised (columns known by name, kind and length) and "
                   "chained over generated histories of additions and removals -- repeated names, lengths that differ, zero rows -- and compared with the specification after every step: "
                   "an addition is refused exactly when the name is taken or the length differs, a refused one changes nothing")
    S = Store(c)
    from .tsvmodel import Tsv
    T = Tsv(c)
    T.setup()
    run(c, "columns of a text data set", T.where("setup"), lambda: requested(c, T))
    run(c, "add and remove", S.where("Add"), lambda: history(c, S))
    run(c, "lazy loading", S.where("GetColumn", "FlatfilesDataStore"), lambda: lazy(c, S))


def compare(S, this, want, at, cls, where, names):
    """The readers of the store against the columns it should hold (name -> column)."""
    num = EV.num_(S.do(cls, "num_cols", this)[0])
    if num != len(want):
        raise Bad("columns", "the store counts %s columns instead of %d (%s)" % (num, len(want), at), where)
    rows = EV.num_(S.do(cls, "num_rows", this)[0])
    if rows != (S.col(list(want.values())[0]).size if want else 0):
        raise Bad("rows", "the store reports %s rows (%s)" % (rows, at), where)
    for n in names:
        g, after = S.do("DataStore", "GetColumn", this, ("str", n))
        if S.col(g) is not (S.col(want[n]) if n in want else None):
            raise Bad("lookup", "looking up '%s' gives %s instead of %s (%s)" % (n, S.col(g) or "nothing", S.col(want[n]) if n in want else "nothing", at), where)
        this = after
    for k, nm in enumerate(KINDS):
        g, after = S.do(cls, "Get%ss" % nm, this)
        got = sorted(id(S.col(p)) for p in g)
        if got != sorted(id(S.col(p)) for p in want.values() if S.col(p).kind == k):
            raise Bad("typed list", "Get%ss lists %s (%s)" % (nm, [str(S.col(p)) for p in g], at), where)
    return this


def history(c, S):
    N = 150 if c.tier == "thorough" else 50
    names = ["a", "b", "", "ab"]
    for it in range(N):
        r = random.Random("%s/h%d" % (c.seed, it))
        this, want, at = {"column_map_": EV.MapVal(), "status_": ("status", 0, ("str", ""))}, {}, []
        fields = {f["name"]: default(f["t"]) for q in ("DataStore",) for f in c.db["recs"]["gbdt::" + q].get("fields") or []}
        this = dict(fields, status_=("status", 0, ("str", "")))
        main = r.choice([0, 0, 1, 2, 3])
        for _ in range(r.randint(1, 6)):
            n = r.choice(names)
            if r.random() < 0.25:
                at.append("'%s' removed" % n)
                _, this = S.do("DataStore", "RemoveColumnIfExists", this, ("str", n))
                want.pop(n, None)
                where = S.where("RemoveColumnIfExists")
            else:
                p = S.new(n, r.randrange(3), main if r.random() < 0.7 else r.choice([0, 1, 2, 3]))
                q = S.col(p)
                at.append("%s added" % q)
                code, this = S.do("DataStore", "Add", this, p)
                where = S.where("Add")
                refuse = n in want or want and S.col(list(want.values())[0]).size != q.size
                if bool(refuse) != (code != 0):
                    raise Bad("refusal", "%s is %s (%s)" % (q, "accepted" if refuse else "refused", ", then ".join(at)), where)
                if not refuse:
                    want[n] = p
            this = compare(S, this, want, ", then ".join(at), "DataStore", where, names)
    return N


def lazy(c, S):
    N = 120 if c.tier == "thorough" else 40
    where = S.where("GetColumn", "FlatfilesDataStore")
    for it in range(N):
        r = random.Random("%s/l%d" % (c.seed, it))
        fields = {f["name"]: default(f["t"]) for q in ("DataStore", "FlatfilesDataStore") for f in c.db["recs"]["gbdt::" + q].get("fields") or []}
        dirs = ["d%d" % k for k in range(r.randint(1, 3))]
        this = dict(fields, status_=("status", 0, ("str", "")), flatfiles_dirs_=[("str", d) for d in dirs])
        names = ["a", "b", "c"]
        want, at, main = {}, [], r.choice([0, 1, 2, 3])
        for _ in range(r.randint(1, 5)):
            n = r.choice(names)
            files = {r.choice(dirs) + "/" + n: 1} if r.random() < 0.85 else {}
            there = bool(files)
            files["header"] = r.choice(list(HEADERS) * 3 + ["", "# dtype=other", "1.5"])
            files["rows"] = main if r.random() < 0.7 else r.choice([0, 1, 2, 3])
            at.append("'%s' requested (%s)" % (n, "file '%s' with %d rows" % (files["header"], files["rows"]) if there else "no file"))
            g, this = S.do("FlatfilesDataStore", "GetColumn", this, ("str", n), files)
            q = S.col(g)
            said = ", then ".join(at)
            if n in want:
                if q is not S.col(want[n]):
                    raise Bad("reloaded", "a column that is there already is not what a later request gets (%s)" % said, where)
            else:
                good = there and files["header"] in HEADERS and (not want or S.col(list(want.values())[0]).size == files["rows"])
                if good != (q is not None):
                    raise Bad("lazy length" if there and files["header"] in HEADERS else "lazy column", "the request gives %s (%s)" % (q or "nothing", said), where)
                if q is not None:
                    if q.name != n or q.size != files["rows"] or q.kind != HEADERS[files["header"]]:
                        raise Bad("lazy column", "the request gives %s (%s)" % (q, said), where)
                    want[n] = g
            this = compare(S, this, want, said, "DataStore", where, names)
    return N


def requested(c, T):
    """A text data set's columns are those asked for, each once and under its own name; asking twice is refused."""
    from .c32 import request, names_of, heading
    from .tsvmodel import KINDS as LISTS, pairs
    N = 300 if c.tier == "thorough" else 80
    for it in range(N):
        r = random.Random("%s/q%d" % (c.seed, it))
        names = names_of(r)
        cfg, kinds = request(r, names)
        twice = None
        if kinds and r.random() < 0.6:
            twice = r.choice(sorted(kinds))
            k = r.choice([x for x in cfg if cfg[x] == ("str", "") or isinstance(cfg[x], list)])
            cfg[k] = cfg[k] + [("str", twice)] if isinstance(cfg[k], list) else ("str", twice)
        files = {"f0": heading(r, names) + "\n"}
        at = "header %r, columns %s" % (files["f0"], ", ".join("%s as %s" % (n, LISTS[k][:-9]) for n, k in kinds.items()))
        code, state = T.do_setup("f0", cfg, files)
        if twice is not None:
            if code == 0:
                raise Bad("requested twice", "column '%s' is accepted although it is requested twice (%s)" % (twice, at), T.where("setup"))
            continue
        if code != 0:
            raise Bad("set-up", "the column set-up fails (%s)" % at, T.where("setup"))
        cols = dict((n[1], EV.hk(p)) for n, p in pairs(state["column_map_"]))
        if set(cols) != set(kinds) or len(set(cols.values())) != len(cols):
            raise Bad("set-up", "the store holds the columns %s (%s)" % (sorted(cols), at), T.where("setup"))
        for n, k in kinds.items():
            if EV.hk(cols[n]) not in [EV.hk(x["first"]) for x in state[LISTS[k]]]:
                raise Bad("set-up", "column '%s' is not of the requested kind (%s)" % (n, at), T.where("setup"))
    return N
