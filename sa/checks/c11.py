"""C11: a column is only ever accessed as the kind it really is."""
import random

from ..core import *
from ..callgraph import graph
from . import splitmodel as SM
from . import treemodel as TM
from .c26 import derived
from .c22 import run
from .c36 import Bad
from .recmodel import *

KINDS = {"gbdt::StringColumn": "kStringColumn", "gbdt::BucketizedFloatColumn": "kBucketizedFloatColumn", "gbdt::RawFloatColumn": "kRawFloatColumn"}
OP = {"Column::type": "pure", "GetColumn": "pure", "GetStringColumn": "pure", "GetRawFloatColumn": "pure", "GetBucketizedFloatColumn": "pure"}
COLUMN = "gbdt::Column"


def check(c):
    c.rules.append("every conversion of a column to one of its kinds (found in the syntax tree of every function) must lie on a path on which the column's tag is known to be that kind, the column was created as that "
                   "kind just before, or, in the tree fitting, is a categorical split's feature (the split search is shown to propose those for string columns only); tags are set by the constructors and never written "
                   "after; typed look-ups are compared with the tag for every kind of column")
    tags = {k: int(SM.enum(c, v)) for k, v in KINDS.items()}
    constructors(c, tags)
    sites(c, tags)
    run(c, "typed look-ups", "src/data_store/data_store.cc", lambda: lookups(c, tags))
    run(c, "lists by kind", "src/data_store/data_store.cc", lambda: lists(c, tags))
    dispatch(c, tags)


def concrete(c, cls):
    """Kinds an object of class cls can have."""
    return [k for k in KINDS if derived(c, k, cls)]


# ---------------------------------------------------------------- tags
def constructors(c, tags):
    db = c.db
    for cls, tag in sorted(tags.items()):
        for f in db["fns"].values():
            if f.get("rec") != cls or not f.get("ctor") or f.get("body") is None or f.get("implicit"):
                continue
            if any(cls in p["t"] for p in f["params"]):
                continue
            I = c.enter(f, mem=True, opaque={"!pred": lambda g: "effect" if not g.get("ctor") else None})
            where = "src/%s:%s" % (f["file"], f["l"])
            v = sel(I.memval(("this",)), (".", "type_"))
            if v.op == "num":
                c.decide(v.a[0] == tag, "tag:" + cls.split("::")[-1], "a %s is given the tag %s instead of %s" % (cls.split("::")[-1], v.a[0], tag), where)
            else:
                c.undecided("tag:" + cls.split("::")[-1], where, "tag %s" % show(v)[:80])
    # nobody else writes the tag
    n = 0
    for f in db["fns"].values():
        for x in walk(f.get("body")):
            if x.get("k") in ("asg", "bin", "un", "assign", "cassign", "opassign") and target_is_tag(x):
                c.viol("retag:" + f["name"], "%s changes the tag of a column" % f["name"], "src/%s:%s" % (f["file"], x.get("l", f["l"])))
            n += 1
    c.ok("tags are never written", "src/data_store/column.h", "%d expressions" % n)


def target_is_tag(x):
    op = str(x.get("op", ""))
    if x["k"] == "bin" and not (op == "=" or op.endswith("=") and op not in ("==", "!=", "<=", ">=")):
        return False
    if x["k"] == "un" and op not in ("++", "--", "&"):
        return False
    t = next((x[k] for k in ("lhs", "a", "l", "e", "x") if isinstance(x.get(k), dict)), None)
    while isinstance(t, dict) and t.get("k") in ("paren", "cast"):
        t = t.get("e")
    return isinstance(t, dict) and t.get("k") == "mem" and t.get("f") == "type_"


def walk(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            todo += y.values()
        elif isinstance(y, list):
            todo += y


# ---------------------------------------------------------------- conversions
def downcasts(c, f):
    out = []
    for x in walk([f.get("body"), f.get("inits")]):
        if x.get("ck") == "BaseToDerived" and kind_of(c, x.get("t", "")):
            out.append(x)
    return out


def kind_of(c, t):
    t = t.replace("const ", "").rstrip("*& ").strip()
    return t if t in KINDS or t != COLUMN and derived(c, t, COLUMN) and t in c.db["recs"] else None


def tagged(p, v):
    """Replacement of the tag of column p by v."""
    return lambda t: num(v) if t.op == "ret" and t.a[0].split("::")[-1] == "type" and len(t.a) > 1 and t.a[1] and t.a[1][0] is p else None


class Sites:
    def __init__(self, c, tags):
        self.c, self.tags, self.memo = c, tags, {}
        self.callers = {}
        for a, bs in graph(c.db).items():
            for b in bs:
                self.callers.setdefault(b, set()).add(a)

    def summary(self, f, chain=()):
        """Summary of f with the functions of the chain followed."""
        key = (f["id"], chain)
        if key not in self.memo:
            big = lambda g: "effect" if g["id"] != f["id"] and g["id"] not in chain and g.get("body") is not None and (len(str(g["body"])) > 6000 or g["name"].split("::")[-1] in ("FitTreeToGradients", "TrainGBDT")) else None
            self.memo[key] = self.c.enter(f, mem=True, opaque=dict(OP, **{"!pred": big}))
        return self.memo[key]

    def judge(self, f, I, e):
        """None when the conversion is in order, (text) when a column of another kind can get there, ("?", why)."""
        ks = concrete(self.c, e.to)
        others = {k: v for k, v in self.tags.items() if k not in ks}
        for g, p in EV.guarded(e.ptr):
            pc = band(e.pc, g)
            if pc == 0 or p.op == "null":
                continue
            if p.op == "addr" and p.a[0][0] == "heap" and not p.a[1]:
                cls = I.roottype.get(p.a[0])
                if cls and derived(self.c, cls, e.to):
                    continue
                if cls:
                    return "a %s is" % cls.split("::")[-1]
                return ("?", "object %s" % show(p)[:60])
            t = p
            while t.op in ("own", "uptr", "conv") and isinstance(t.a[0], Term):
                t = t.a[0]
            for k, v in sorted(others.items()):
                h = bsubst(pc, tagged(p, v))
                if h == 0:
                    continue
                r, why = EV.search(h)
                if r == "point":
                    return "a column with the tag of a %s can be" % k.split("::")[-1]
                if r != "none":
                    return ("?", str(why))
        return None

    def up(self, f, e, depth=0, chain=()):
        """Judges a conversion of f whose column is handed in, in the callers of f."""
        I = self.summary(f, chain)
        j = None
        for x in I.events:
            if x.kind == "downcast" and x.file == e[0] and x.line == e[1]:
                j = self.judge(f, I, x)
                if j is not None:
                    break
        else:
            if not any(x.kind == "downcast" and x.file == e[0] and x.line == e[1] for x in I.events) and depth:
                return ("?", "call in %s not followed" % f["name"])
        if j is None or isinstance(j, tuple):
            return j
        cs = [self.c.db["fns"][i] for i in self.callers.get(f["id"], ()) if i != f["id"]]
        cs = [g for g in cs if g.get("body") is not None and not g["file"].endswith("_test.cc")]
        internal = f.get("internal") or f.get("islambda")
        if not cs or not internal and not depth and not self.parameter(x.ptr):
            return j
        if not self.parameter(x.ptr) or depth > 3:
            return j
        for g in cs:
            r = self.up(g, e, depth + 1, chain + (f["id"],))
            if r is not None:
                return r
        return None

    @staticmethod
    def parameter(p):
        return mentions(p, lambda t: t.op == "sym" and t.a[0] == "arg" or t.op == "init" and t.a[0][0] in ("arg", "this", "*"))


def sites(c, tags):
    S = Sites(c, tags)
    covered = tree(c, tags)
    for f in sorted(c.db["fns"].values(), key=lambda g: (g["file"], g["l"], g["id"])):
        xs = downcasts(c, f) if not f["file"].endswith("_test.cc") else []
        if not xs:
            continue
        where = "src/%s:%s" % (f["file"], f["l"])
        if f.get("islambda"):
            f = next((g for g in c.db["fns"].values() if not g.get("islambda") and g["file"] == f["file"] and g["l"] <= f["l"] <= g.get("le", 0)), f)
        I = S.summary(f)
        seen = set()
        for e in I.events:
            if e.kind != "downcast" or not kind_of(c, e.to) or (e.file, e.line) in seen or (e.file, e.line) in covered:
                continue
            seen.add((e.file, e.line))
            key = "conversion:%s:%s" % (f["name"].split("::")[-1], e.to.split("::")[-1])
            at = "src/%s:%s" % (e.file, e.line)
            j = S.up(f, (e.file, e.line))
            if j is None:
                c.ok(key, at)
            elif isinstance(j, tuple):
                c.undecided(key, at, j[1])
            else:
                c.viol(key, "in %s %s treated as a %s" % (f["name"], j, e.to.split("::")[-1]), at)
        if not seen and not any((f["file"], x.get("l")) in covered for x in xs):
            c.undecided("conversion:" + f["name"], where, "%d conversions not met" % len(xs))


def tree(c, tags):
    """Conversions in the fitting of a tree, where a column of the features is that of a split; (file, line) of those decided."""
    sv = TM.OPAQUE
    try:
        TM.OPAQUE = dict(sv, **{"Column::type": "pure", "Column::name": "pure", "get_cat_string": "pure"})
        T = TM.Tree(c)
    finally:
        TM.OPAQUE = sv
    I = T.I
    es = [e for e in I.events if e.kind == "downcast" and kind_of(c, e.to)]
    if not es:
        return set()
    search_contract(c, tags)
    kfeat = TM.pos(c.fn("FindBestSplit"), "Column")
    ft = [k for k, p in enumerate(T.f["params"]) if "Column" in p["t"]][0]
    kinds = [k for k in KINDS]
    covered = set()
    N = 900 if c.tier == "thorough" else 120
    hit = {}
    try:
        for it in range(N):
            r = random.Random("%s/d%d" % (c.seed, it))
            FS = r.sample(range(6), r.choice([1, 2, 3, 4]))
            G = [F(r.choice([0, 1, 2, 3])) for _ in range(6)]
            K = [r.choice(kinds) for _ in range(6)]
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, key):
                if key[0] == "ret" and fnname(key) == "UniformSubsample":
                    return [F(q) for q in FS]
                if key[0] == "sel" and key[2] == "[" and key[1] == ("init", ("arg", ft)):
                    return ("feat", int(key[3]))
                if key[0] == "ret" and fnname(key) == "type" and isinstance(key[2][0], tuple) and key[2][0][0] == "feat":
                    return F(tags[K[key[2][0][1]]])
                if key[0] == "out" and fnname(key) == "FindBestSplit":
                    x = next(q for q in T.finds if q.ret.a[2] == key[2])
                    svd = dict(env.dyn)
                    for l, v in zip(x.loops, key[4]):
                        env.dyn[IN.LOOPS[l].idx] = F(v)
                    d = EV.ev(x.args[kfeat], env)
                    env.dyn = svd
                    if not (isinstance(d, tuple) and d[0] == "feat"):
                        raise EV.Unknown("searched feature")
                    k = d[1]
                    raw = K[k] == "gbdt::RawFloatColumn"
                    cat = K[k] == "gbdt::StringColumn" and not raw
                    return {"gain": F(0) if raw else G[k], "feature": ("str", ""), "has_cat_split": cat, "has_float_split": not cat and not raw,
                            "cat_split": {"internal_categorical_index": [F(1)] if cat else [], "category": []},
                            "float_split": {"threshold": F(0), "missing_to_right_child": False}}
                return None
            env.sem = sem
            for e in es:
                env.dyn.clear()
                for l in e.loops:
                    env.dyn[IN.LOOPS[l].idx] = F(0)
                at = (e.file, e.line)
                if not EV.evg(local(e, I), env, {}):
                    continue
                p = EV.ev(e.ptr, env)
                if not (isinstance(p, tuple) and p[0] == "feat"):
                    raise EV.Unknown("column %s" % (str(p)[:60],))
                hit[at] = hit.get(at, 0) + 1
                if K[p[1]] not in concrete(c, e.to):
                    raise Bad("conversion:tree:" + e.to.split("::")[-1], "while a tree is fitted a %s is treated as a %s (feature kinds %s, gains %s, sampled %s)" % (
                        K[p[1]].split("::")[-1], e.to.split("::")[-1], [k.split("::")[-1][:6] for k in K], [str(x) for x in G], FS), "src/%s:%s" % at)
        for at, n in sorted(hit.items()):
            c.ok("conversion:tree", "src/%s:%s" % at, "%d interpretations" % n)
    except Bad as b:
        c.viol(*b.args)
        hit = {(e.file, e.line): 1 for e in es}
    except EV.Unknown as u:
        c.undecided("conversion:tree", T.where, str(u))
        hit = {(e.file, e.line): 1 for e in es}
    return set(hit)


def local(e, I):
    """Path condition of an event without what is decided by enclosing loops' progress."""
    pc = e.pc
    for l in e.loops:
        L = IN.LOOPS[l]
        if isinstance(L.cond, int) and L.cond not in (0, 1):
            pc = brestrict(pc, L.cond)
    return pc


def search_contract(c, tags):
    """A split search proposes categories for string columns only and nothing for a raw column."""
    try:
        x = SM.prepare(c)
        has = SM.c_get(x["out"], ["has_cat_split"])
        f = c.fn("FindBestSplit")
        kf = TM.pos(f, "Column")
        for k, v in sorted(tags.items()):
            name = "search:" + k.split("::")[-1]
            g = IN.tobool(subst(has, tagged(mk("sym", "arg", kf), v)))
            if k != "gbdt::StringColumn":
                r = catpoint(c, x, g)
                if r == "point":
                    c.viol(name, "a split of a %s lists categories" % k.split("::")[-1], x["where"])
                elif r == "none":
                    c.ok(name, x["where"])
                else:
                    c.undecided(name, x["where"], "categorical part of the proposal")
    except EV.Unknown as u:
        c.undecided("search", "", str(u))


def catpoint(c, x, g):
    if g == 0:
        return "none"

    def hook(env, k, t):
        if k[0] == "sel" and k[1] == ("init", x["rootkey"]) and str(k[-1]).startswith("has_"):
            return False
        if k[0] == "init" and k[1] == x["rootkey"]:
            return {"gain": F(0), "feature": ("str", ""), "has_cat_split": False, "has_float_split": False, "float_split": {"threshold": F(0), "missing_to_right_child": False},
                    "cat_split": {"internal_categorical_index": [], "category": []}}
        return None
    r, why = EV.search(g, hook=hook)
    return r


# ---------------------------------------------------------------- look-ups
def lookups(c, tags):
    n = 0
    for k, tag in sorted(tags.items()):
        f = c.method("gbdt::DataStore", "Get" + k.split("::")[-1])
        I = c.enter(f, mem=True, opaque=OP)
        where = "src/%s:%s" % (f["file"], f["l"])
        for other in [None] + sorted(tags):
            env = EV.Env(1)

            def sem(env, key):
                if key[0] == "ret" and fnname(key) == "GetColumn":
                    return ("null",) if other is None else ("col", other)
                if key[0] == "ret" and fnname(key) == "type":
                    if key[2][0] == ("null",):
                        raise Bad("typed:null", "%s asks an absent column for its tag" % f["name"], where)
                    return F(tags[other])
                return None
            env.sem = sem
            got = EV.ev(I.value, env)
            want = ("col", other) if other == k else ("null",)
            if got != want:
                raise Bad("typed:" + k.split("::")[-1], "%s returns %s for %s" % (f["name"], "the column" if got != ("null",) else "nothing", "an absent column" if other is None else "a " + other.split("::")[-1]), where)
            n += 1
    return n


def lists(c, tags):
    n = 0
    for k, tag in sorted(tags.items()):
        f = c.method("gbdt::DataStore", "Get" + k.split("::")[-1] + "s")
        I = c.enter(f, mem=True, opaque=OP)
        where = "src/%s:%s" % (f["file"], f["l"])
        for it in range(40):
            r = random.Random("%s/l%d" % (k, it))
            m = EV.MapVal()
            cols = []
            for j in range(r.randint(0, 5)):
                cols.append(("col", "c%d" % j, r.choice(sorted(tags))))
                m.put(("str", "c%d" % j), cols[-1])
            env = EV.Env(it)
            env.sem = lambda env, key: {"column_map_": m} if key == ("init", ("this",)) else F(tags[key[2][0][2]]) if key[0] == "ret" and fnname(key) == "type" else None
            got = EV.ev(I.value, env)
            want = [x for x in cols if x[2] == k]
            if sorted(got) != sorted(want):
                raise Bad("list:" + k.split("::")[-1], "%s returns %s of the columns %s" % (f["name"], [x[1] for x in got], [(x[1], x[2].split("::")[-1]) for x in cols]), where)
            n += 1
    return n


def dispatch(c, tags):
    """Splitting and searching treat a column according to its tag."""
    for name in ("Partition", "FindBestSplit"):
        f = next((g for g in c.find(name) if any("gbdt::Column *" in p["t"] for p in g["params"])), None)
        if f is None:
            c.undecided("dispatch:" + name, "", "no function of that name takes a column")
            continue
        where = "src/%s:%s" % (f["file"], f["l"])
        kf = next(k for k, p in enumerate(f["params"]) if "gbdt::Column *" in p["t"])
        kinds = {g["id"] for g in c.db["fns"].values() if g["id"] != f["id"] and g.get("body") is not None and any(kind_of(c, p["t"]) in KINDS for p in g["params"])}
        I = c.enter(f, mem=True, opaque=dict(OP, **{"!pred": lambda g: "effect" if g["id"] in kinds else None}))
        for k, v in sorted(tags.items()):
            if k == "gbdt::RawFloatColumn":
                continue
            key = "dispatch:%s:%s" % (name, k.split("::")[-1])
            es = [e for e in I.events if e.kind == "call" and e.fid in kinds and any(kind_of(c, p["t"]) == k for p in c.db["fns"][e.fid]["params"])]
            if not es:
                c.undecided(key, where, "nothing is called for this kind")
                continue
            g = 1
            for e in es:
                g = band(g, bnot(bsubst(e.pc, tagged(mk("sym", "arg", kf), v))))
            if g == 0:
                c.ok(key, where)
            elif EV.search(g)[0] == "point":
                c.viol(key, "%s of a %s does not reach the function for this kind" % (name, k.split("::")[-1]), where)
            else:
                c.undecided(key, where, "path condition")
