"""Prediction is the sum over all trees of the score of the leaf a row is routed to."""
from ..core import *
from .recmodel import *
from . import treemodel as TM

ABS = {"Partition": "effect", "DataStore::GetColumn": "effect", "DataStore::num_rows": "pure", "Column::name": "pure"}


def check(c):
    c.rules.append("structural induction over the tree: the recursive scoring function is summarised with its recursive calls abstract and interpreted by its specification (adds, for every row of the slice, "
                   "the score of the leaf the row reaches plus the constant); AddTreeScores covers all slices of all rows; EvaluateForest folds over all trees from zero after loading all features")
    step(c)
    cover(c)
    forest(c)
    features(c)
    loading(c)


def find_step(c):
    """(AddTreeScores with a constant, its recursive worker)."""
    fs = [f for f in c.find("ComputeTreeScores::AddTreeScores")]
    f = max(fs, key=lambda f: len(f["params"]))
    I = c.enter(f, mem=True, opaque=ABS)
    rec_ = {e.fid for e in I.events if e.kind == "call" and e.mode == "rec"}
    rec_ = {r for r in rec_ if any("TreeNode" in p["t"] for p in c.db["fns"][r]["params"])}
    return f, rec_


def role(f, tail, notin=None):
    ks = [k for k, p in enumerate(f["params"]) if tail in p["t"] and (notin is None or notin not in p["t"])]
    return ks[0] if len(ks) == 1 else None


class Step:
    """The recursive scoring worker."""

    def __init__(self, c):
        self.entry, rec_ = find_step(c)
        self.R = None
        if len(rec_) == 1:
            self.R = c.db["fns"][rec_.pop()]
            f = self.R
            self.kn, self.ks, self.kv = role(f, "TreeNode"), role(f, "VectorSlice"), role(f, "double", "vector<") if False else None
            self.kv = role(f, "vector<double>")
            ks = [k for k, p in enumerate(f["params"]) if p["t"].replace("const ", "").replace("&", "").strip() in ("double", "float")]
            self.kc = ks[0] if len(ks) == 1 else None
            self.kd = role(f, "DataStore")


def step(c):
    S = Step(c)
    if S.R is None:
        return c.undecided("recursion", "", "no single recursive worker below AddTreeScores")
    f = S.R
    where = "src/%s:%s" % (f["file"], f["l"])
    if None in (S.kn, S.ks, S.kv):
        return c.undecided("recursion", where, "parameters of the worker")
    ab = dict(ABS)
    short = IN.sname(f["name"])
    ab[short[6:] if short.startswith("gbdt::") else short] = "effect"
    I = c.enter(f, mem=True, opaque=ab)
    sroot = ("*", mk("sym", "arg", S.kv)) if "*" in f["params"][S.kv]["t"] else ("arg", S.kv)
    nroot = ("*", mk("sym", "arg", S.kn)) if "*" in f["params"][S.kn]["t"] else ("arg", S.kn)
    out = I.memval(sroot)
    slice_ = argval(f, S.ks)
    smem = ("*", c.on(I, "VectorSlice", "begin", slice_))
    kname = {}
    N = 1500 if c.tier == "thorough" else 200
    why = None
    done = 0
    calls = [e for e in I.events if e.kind == "call" and e.fid == f["id"]]
    die = bor(*[e.pc for e in I.events if e.kind in ("die", "throw")])
    for it in range(N):
        r = random.Random("%s/r%d" % (c.seed, it))
        n = r.randint(0, 4)
        rows = r.sample(range(6), n)
        scores = [F(r.randint(-3, 3)) for _ in range(6)]
        const = F(r.choice([0, 0, 1, 2, -1]))
        node = rnode(r)
        number(node, [0])
        nroots = {EV._k(nroot, EV.Env(0), {}): node}

        def cut(sp, lo, hi):
            return lo + random.Random("%s/%s" % (it, sp["id"])).randint(0, hi - lo)

        def add(t, lo, hi, to, cst):
            if not t["has_left_child"]:
                for x in rows[lo:hi]:
                    to[x] += t["score"] + cst
            else:
                m = cut(t["split"], lo, hi)
                add(t["left_child"], lo, m, to, cst)
                add(t["right_child"], m, hi, to, cst)
        env = EV.Env(it)
        env.steps = 10 ** 6

        def bounds(v):
            if isinstance(v, dict) and "begin_" in v:
                return int(v["begin_"]), int(v["end_"])
            raise EV.Unknown("slice %s" % (str(v)[:60],))

        def sem(env, k):
            if k[0] == "init":
                if k[1] == EV._k(sroot, env, {}):
                    return list(scores)
                if k[1] == EV._k(nroot, env, {}):
                    return node
                if k[1] == EV._k(smem, env, {}):
                    return [F(x) for x in rows]
                if isinstance(k[1], tuple) and k[1][0] == "*" and isinstance(k[1][1], (int, F)):
                    return [F(x) for x in rows[int(k[1][1]):]]
                if isinstance(k[1], tuple) and k[1][0] == "*" and isinstance(k[1][1], tuple) and k[1][1][:1] == ("addr",):
                    return tree_of(k[1][1], node, nroots)
            if k[0] == "sym" and k[1] == "arg":
                if k[2] == S.ks:
                    return {"begin_": F(0), "end_": F(n)}
                if k[2] == S.kc:
                    return const
            if k[0] == "ret" and fnname(k) == "Partition":
                a = list(k[2])
                col = [x for x in a if isinstance(x, tuple) and x and x[0] == "column"]
                sp = [unhk(x) for x in a if "gain" in keys(x)]
                sl = [unhk(x) for x in a if "begin_" in keys(x)]
                if len(col) != 1 or len(sp) != 1 or len(sl) != 1:
                    raise EV.Unknown("arguments of Partition %s" % (str(a)[:100],))
                if sp[0]["feature"] != col[0][1]:
                    raise Bad("column", "a node that splits on %s is divided by the values of %s" % (sp[0]["feature"], col[0][1]), where)
                lo, hi = bounds(sl[0])
                m = cut(sp[0], lo, hi)
                return {"first": {"begin_": F(lo), "end_": F(m)}, "second": {"begin_": F(m), "end_": F(hi)}}
            if k[0] == "ret" and fnname(k) == "GetColumn":
                nm = [x for x in k[2] if isinstance(x, tuple) and x and x[0] == "str"]
                return EV.Leaf(("column", nm[0])) if len(nm) == 1 else None
            if k[0] == "out" and fnname(k) == fnname((0, short)) and k[3] == S.kv:
                a = args_of(I, k, env)
                lo, hi = bounds(a[S.ks])
                old = [F(x) for x in k[5]]
                add(tree_of(a[S.kn], node, nroots), lo, hi, old, EV.num_(a[S.kc]) if S.kc is not None else F(0))
                return old
            return None
        env.sem = sem
        cadd = const if S.kc is not None else F(0)
        want = list(scores)
        add(node, 0, n, want, cadd)
        d = "%s, rows %s, constant %s" % (tshow(node, 0, n, cut), rows, cadd)
        try:
            if EV.evg(die, env, {}):
                continue
            got = EV.ev(out, env)
            if not isinstance(got, list):
                raise EV.Unknown("scores")
            if [F(x) for x in got] != want:
                return c.viol("scores", "the worker turns scores %s into %s, expected %s (%s)" % (
                    [str(x) for x in scores], [str(x) for x in got], [str(x) for x in want], d), where)
            done += 1
        except Bad as b:
            return c.viol(*b.args)
        except EV.Unknown as u:
            why = str(u)
            break
        except (TypeError, IndexError, KeyError) as u:
            why = "value not understood: %s" % u
            break
    if why or not done:
        c.undecided("scores", where, why)
    else:
        c.ok("scores", where, "%d interpretations" % done)


def number(t, ids):
    ids[0] += 1
    t["split"]["id"] = F(ids[0])
    if t["has_left_child"]:
        number(t["left_child"], ids)
        number(t["right_child"], ids)


def tshow(t, lo, hi, cut):
    if not t["has_left_child"]:
        return "leaf %s" % t["score"]
    m = cut(t["split"], lo, hi)
    return "(%s %s | %s)" % (t["split"]["feature"][1], tshow(t["left_child"], lo, m, cut), tshow(t["right_child"], m, hi, cut))


def keys(x):
    if isinstance(x, dict):
        return set(x)
    return {y[0] for y in x if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str)} if isinstance(x, tuple) else set()


def unhk(x):
    return x if isinstance(x, dict) else {y[0]: y[1] for y in x}


def cover(c):
    """AddTreeScores applies the worker to every slice of all rows, once."""
    S = Step(c)
    f = S.entry
    where = "src/%s:%s" % (f["file"], f["l"])
    if S.R is None:
        return
    short = IN.sname(S.R["name"])
    short = short[6:] if short.startswith("gbdt::") else short
    I = c.enter(f, mem=True, opaque={short: "effect", **ABS})
    ev = [e for e in I.events if e.kind == "call" and e.fid == S.R["id"]]
    if len(ev) != 1 or len(ev[0].loops) != 1:
        return c.undecided("cover", where, "%d calls of the worker" % len(ev))
    e = ev[0]
    LP = IN.LOOPS[e.loops[0]]
    sl = e.args[S.ks]
    tree = [k for k, p in enumerate(f["params"]) if "TreeNode" in p["t"]][0]
    got = e.args[S.kn]
    c.decide(got is I.addr(("arg", tree)) or got is argval(f, tree), "cover:tree", "the worker is applied to %s" % show(got)[:100], loc(e))
    sc = role(f, "vector<double>")
    if sc is not None:
        c.decide(e.args[S.kv] is argval(f, sc) or e.args[S.kv] is mk("sym", "arg", sc) or e.args[S.kv] is I.addr(("arg", sc)), "cover:scores", "the worker adds to %s" % show(e.args[S.kv])[:100], loc(e))
    if S.kc is not None:
        kc = [k for k, p in enumerate(f["params"]) if p["t"].replace("const ", "").strip() == "double"]
        if len(kc) == 1:
            c.same(e.args[S.kc], argval(f, kc[0]), "cover:constant", "the constant added per tree", loc(e))
    box = sl.a[0] if sl.op == "sel" and sl.a[1][0] == "[" else None
    if box is None or not (box.op == "sel" and box.a[1][0] == "."):
        return c.undecided("cover", loc(e), "slice %s" % show(sl)[:100])
    x, n = LP.idx, LP.bound
    inr = inside(e.loops)
    if n is None or LP.early:
        if LP.early:
            return c.viol("cover:all", "not every slice is scored: the loop stops when %s" % bshow(LP.early)[:200], loc(e))
        return c.undecided("cover", loc(e), "loop bound")
    c.same(n, size(box), "cover:slices", "the number of slices scored", loc(e), ints=[0, 1, 2, 3])
    c.same(sl.a[1][1], x, "cover:slice", "the slice scored by the i-th task", loc(e))
    full = ilt(ZERO, c.on(I, "VectorSlice", "size", sl))
    c.never(band(inr, full, bnot(e.pc)), "cover:always", "a slice is skipped", loc(e), ints=[0, 1, 2, 3])
    # the slices divide all rows
    ctor = [g for g in c.db["fns"].values() if g.get("ctor") and g.get("rec", "").split("::")[-1] == "ComputeTreeScores" and g.get("body") is not None and not g.get("implicit")]
    if len(ctor) != 1:
        return c.undecided("rows", where, "constructor")
    ctor = ctor[0]
    J = c.enter(ctor, mem=True, opaque={"DivideSamples": "effect", **ABS})
    w2 = "src/%s:%s" % (ctor["file"], ctor["l"])
    v = J.memval(("this",))
    fv = sel(v, box.a[1])
    ds = [x for x in J.events if x.kind == "call" and x.fn.endswith("DivideSamples")]
    if len(ds) != 1 or fv is not ds[0].ret:
        return c.undecided("rows", w2, "slices are %s" % show(fv)[:150])
    kk = role(c.fn("Subsampling::DivideSamples"), "VectorSlice")
    a = ds[0].args[0 if kk is None else kk]
    b, n = c.on(J, "VectorSlice", "begin", a), c.on(J, "VectorSlice", "size", a)
    kd = role(ctor, "DataStore")
    rows = [x.ret for x in J.events if x.kind == "call" and x.fn.endswith("num_rows")]
    if not rows:
        return c.undecided("rows", w2, "row count")
    c.same(n, rows[0], "rows:count", "the number of rows divided into slices", w2, ints=[0, 1, 2, 3])
    k = mk("sym", "k")
    TYPE[k] = "int"
    el = J.qread(J.itderef(add(b, k)))
    guard = band(ile(ZERO, k), ilt(k, rows[0]))
    r, info = EV.compare(el, k, n=60, seed=c.seed, assume=guard, ints=[0, 1, 2, 3])
    if r == "same":
        c.ok("rows:all", w2)
    elif r == "differ":
        c.viol("rows:all", "the k-th row to be scored is %s instead of k" % show(el)[:200], w2)
    else:
        c.undecided("rows:all", w2, str(info))


def forest(c):
    fs = [f for f in c.find("EvaluateForest") if any("vector<double>" in p["t"] for p in f["params"])]
    if not fs:
        raise Missing("EvaluateForest(..., vector<double>*)")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    kf, ko = role(f, "Forest"), role(f, "vector<double>")
    big = max(len(g["params"]) for g in c.find("ComputeTreeScores::AddTreeScores"))
    ab = {"LoadFeatures": "effect", "CollectAllFeatures": "effect", "DataStore::num_rows": "pure",
          "!pred": lambda g: "effect" if g["name"].split("::")[-1] == "AddTreeScores" and len(g["params"]) == big or g.get("ctor") and g.get("rec", "").endswith("ComputeTreeScores") else None}
    I = c.enter(f, mem=True, opaque=ab)
    adds = [e for e in I.events if e.kind == "call" and e.fn.endswith("AddTreeScores")]
    loads = [e for e in I.events if e.kind == "call" and e.fn.endswith("LoadFeatures")]
    colls = [e for e in I.events if e.kind == "call" and e.fn.endswith("CollectAllFeatures")]
    if not adds:
        return c.undecided("forest", where, "no tree is scored directly")
    # features are loaded before any score is computed
    for e in adds:
        before = [l for l in loads if I.events.index(l) < I.events.index(e) and implies(e.pc, l.pc)]
        if not before:
            c.viol("loaded", "a tree is scored without loading the forest's features", loc(e))
        for l in before[:1]:
            c.implies(e.pc, code_guard(l.ret, 0), "loaded", "a tree is scored although loading the features failed", loc(e))
    for l in loads:
        ok = any(x.ret is l.args[0] and x.args and x.args[0] is argval(f, kf) for x in colls)
        if ok:
            c.ok("loads all", loc(l))
        elif any(mentions(l.args[0], lambda t, x=x: t is x.ret) for x in colls):
            c.undecided("loads all", loc(l), "features %s" % show(l.args[0])[:200])
        else:
            c.viol("loads all", "the features loaded are not those of the forest: %s" % show(l.args[0])[:200], loc(l))
    ga = c.db["fns"][adds[0].fid]
    kt, ks = role(ga, "TreeNode"), role(ga, "vector<double>")
    kc = [k for k, p in enumerate(ga["params"]) if p["t"].replace("const ", "").strip() == "double"]
    root = ("*", mk("sym", "arg", ko))
    out = I.memval(root)
    ok0 = I.value
    N = 600 if c.tier == "thorough" else 120
    n = 0
    try:
        for it in range(N):
            r = random.Random("%s/f%d" % (c.seed, it))
            nt, nr = r.randint(0, 4), r.randint(0, 3)
            trees = [rnode(r) for _ in range(nt)]
            T = [[pick(r, t) for _ in range(nr)] for t in trees]
            stale = [F(r.randint(1, 5)) for _ in range(r.randint(0, 4))]
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, k):
                if k[0] == "init":
                    if k[1] == EV._k(root, env, {}):
                        return list(stale)
                    if k[1] == ("arg", kf):
                        return {"tree": [{**t, "id": F(j)} for j, t in enumerate(trees)]}
                if k[0] == "ret" and fnname(k) == "num_rows":
                    return F(nr)
                if k[0] == "code":
                    return F(0)
                if k[0] == "out" and fnname(k) == "AddTreeScores" and k[3] == ks:
                    a = args_of(I, k, env)
                    t = a[kt]
                    if isinstance(t, EV.Leaf) and t[0] == "addr" and t[1] == ("arg", kf) and t[2] and t[2][-1][0] == "[":
                        j = int(t[2][-1][1])
                    elif isinstance(t, dict):
                        j = int(t["id"])
                    else:
                        raise EV.Unknown("tree %s" % (str(t)[:80],))
                    const = EV.num_(a[kc[0]]) if kc else F(0)
                    old = k[5]
                    if not isinstance(old, (list, tuple)):
                        raise EV.Unknown("scores")
                    if len(old) != nr:
                        raise Short(len(old))
                    return [F(x) + y + const for x, y in zip(old, T[j])]
                return None
            env.sem = sem
            want = [sum((t[i] for t in T), F(0)) for i in range(nr)]
            try:
                got = EV.ev(out, env)
            except Short as s:
                c.viol("sum", "the score vector has %s entries for %d rows" % (s, nr), where)
                return
            if not isinstance(got, list):
                raise EV.Unknown("scores")
            if [F(x) for x in got] != want:
                c.viol("sum", "the scores of a forest of %d trees over %d rows are %s; the sums of the trees' scores are %s" % (nt, nr, [str(x) for x in got], [str(x) for x in want]), where)
                return
            n += 1
        c.ok("sum", where, "%d interpretations" % n)
    except EV.Unknown as u:
        c.undecided("sum", where, str(u))
    except (TypeError, IndexError, KeyError) as u:
        c.undecided("sum", where, "value not understood: %s" % u)


def pick(r, t):
    while t["has_left_child"]:
        t = t[r.choice(["left_child", "right_child"])]
    return t["score"]


class Short(Exception):
    pass


def features(c):
    """CollectAllFeatures lists every feature some inner node splits on."""
    fs = [f for f in c.find("CollectAllFeatures") if len(f["params"]) == 1 and "Forest" in f["params"][0]["t"]]
    if not fs:
        raise Missing("CollectAllFeatures(const Forest&)")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, mem=True)
    rec_ = {e.fid for e in I.events if e.kind == "call" and e.mode == "rec"}
    if len(rec_) != 1:
        return c.undecided("features", where, "%d recursive functions" % len(rec_))
    R = c.db["fns"][rec_.pop()]
    kn = role(R, "TreeNode")
    ko = next((k for k, p in enumerate(R["params"]) if "set" in p["t"]), None)
    if kn is None or ko is None:
        return c.undecided("features", where, "parameters of %s" % R["name"])
    short = IN.sname(R["name"])
    only = {"!pred": lambda g: "effect" if g["id"] == R["id"] else None}
    try:
        c.ok("features:step", where, "%d interpretations" % set_step(c, R, only, kn, ko))
        c.ok("features:all trees", where, "%d interpretations" % set_forest(c, f, R, only, kn, ko))
    except Bad as b:
        c.viol("features:" + b.args[0], b.args[1], b.args[2])
    except EV.Unknown as u:
        c.undecided("features", where, str(u))
    except (TypeError, IndexError, KeyError) as u:
        c.undecided("features", where, "value not understood: %s" % u)


class Bad(Exception):
    pass


def tree_of(a, top, roots):
    """The tree value an argument denotes: a value, or an address below one of the roots."""
    if isinstance(a, dict):
        return a
    if isinstance(a, tuple) and a and a[0] == "addr" and a[1] in roots:
        v = roots[a[1]]
        for s in a[2]:
            v = v[s[1]] if s[0] == "." else v[int(s[1])]
        return v
    if isinstance(a, tuple) and len(a) == 3 and a[:2] == ("sym", "arg"):
        return roots[("*", a)]
    raise EV.Unknown("tree %s" % (str(a)[:80],))


def rnode(r, depth=0, names="abc"):
    inner = r.random() < (.75 if depth == 0 else .35) and depth < 2
    d = {"has_left_child": inner, "has_right_child": inner, "has_split": inner or r.random() < .2, "score": F(r.randint(-3, 3)),
         "split": {"feature": ("str", r.choice(names)), "gain": F(r.randint(0, 4))}}
    for s in ("left_child", "right_child"):
        d[s] = rnode(r, depth + 1, names) if inner else {"has_left_child": False, "has_right_child": False, "has_split": False, "split": {"feature": ("str", ""), "gain": F(0)}, "score": F(0)}
    return d


def used(t):
    """Features inner nodes of t split on."""
    if not t["has_left_child"]:
        return set()
    return {t["split"]["feature"]} | used(t["left_child"]) | used(t["right_child"])


def listed(t):
    """... and those named by any split at all."""
    out = {t["split"]["feature"]} if t["has_split"] else set()
    for s in ("left_child", "right_child"):
        if t["has_left_child"]:
            out |= listed(t[s])
    return out


def mapset(x):
    m = EV.MapVal()
    for k in x:
        m.put(k, True)
    return m


def set_step(c, R, only, kn, ko):
    I = c.enter(R, mem=True, opaque=only)
    where = "src/%s:%s" % (R["file"], R["l"])
    oroot = ("*", mk("sym", "arg", ko)) if "*" in R["params"][ko]["t"] else ("arg", ko)
    nroot = ("*", mk("sym", "arg", kn)) if "*" in R["params"][kn]["t"] else ("arg", kn)
    out = I.memval(oroot)
    n = 0
    for it in range(200):
        r = random.Random("%s/s%d" % (c.seed, it))
        node = rnode(r)
        old = {("str", x) for x in r.sample("abcd", r.randint(0, 2))}
        env = EV.Env(it)
        env.steps = 10 ** 6

        def sem(env, k):
            if k[0] == "init" and k[1] == EV._k(oroot, env, {}):
                return mapset(old)
            if k[0] == "init" and k[1] == EV._k(nroot, env, {}):
                return node
            if k[0] == "out" and k[3] == ko:
                t = tree_of(args_of(I, k, env)[kn], node, {EV._k(nroot, env, {}): node})
                base = {x[0] if len(x) == 2 and x[1] is True else x for x in k[5]} if isinstance(k[5], tuple) else set(k[5].kv.values())
                return mapset({parse(x) for x in base} | listed(t))
            return None
        env.sem = sem
        got = EV.ev(out, env)
        if not isinstance(got, EV.MapVal):
            raise EV.Unknown("feature set")
        got = set(got.kv.values())
        want = old | used(node)
        if not want <= got:
            raise Bad("step", "features %s of a tree are not collected (has %s)" % (sorted(x[1] for x in want - got), sorted(x[1] for x in got)), where)
        if not got <= old | listed(node):
            raise Bad("step", "%s is collected although the tree does not use it" % sorted(x[1] for x in got - old - listed(node)), where)
        n += 1
    return n


def parse(x):
    if isinstance(x, str) and x.startswith("("):
        import ast
        return ast.literal_eval(x)
    return x


def set_forest(c, f, R, only, kn, ko):
    I = c.enter(f, mem=True, opaque=only)
    where = "src/%s:%s" % (f["file"], f["l"])
    n = 0
    for it in range(150):
        r = random.Random("%s/t%d" % (c.seed, it))
        trees = [rnode(r) for _ in range(r.randint(0, 3))]
        env = EV.Env(it)
        env.steps = 10 ** 6

        def sem(env, k):
            if k[0] == "init" and k[1] == ("arg", 0):
                return {"tree": trees}
            if k[0] == "out" and k[3] == ko:
                t = tree_of(args_of(I, k, env)[kn], None, {("arg", 0): {"tree": trees}})
                return mapset({parse(x[0]) for x in k[5]} | listed(t))
            return None
        env.sem = sem
        got = EV.ev(I.value, env)
        if not isinstance(got, EV.MapVal):
            raise EV.Unknown("feature set")
        got = set(got.kv.values())
        want = set().union(*[used(t) for t in trees]) if trees else set()
        if not want <= got:
            raise Bad("all trees", "features %s of a forest are not collected" % sorted(x[1] for x in want - got), where)
        n += 1
    return n


def loading(c):
    """LoadFeatures succeeds only when every feature is there and fine."""
    f = c.fn("LoadFeatures")
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, mem=True, opaque={"DataStore::GetColumn": "effect", "DataStore::num_rows": "pure", "Column::status": "pure"})
    ks = next((k for k, p in enumerate(f["params"]) if "set<" in p["t"] and "Column" not in p["t"]), None)
    if ks is None:
        return c.undecided("loading", where, "parameters")
    n = 0
    try:
        for it in range(150):
            r = random.Random("%s/l%d" % (c.seed, it))
            names = r.sample("abcde", r.randint(0, 3))
            state = {x: r.choice([0, 0, 0, None, 5]) for x in names}     # None: missing; otherwise status code
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, k):
                if k[0] == "init" and k[1] == ("arg", ks):
                    return mapset([("str", x) for x in names])
                if k[0] == "ret" and fnname(k) == "GetColumn":
                    nm = next(x for x in k[2] if isinstance(x, tuple) and x[0] == "str")[1]
                    return ("null",) if state[nm] is None else EV.Leaf(("column", nm))
                if k[0] == "code":
                    nm = colname(k)
                    if nm is not None and state.get(nm) is not None:
                        return F(state[nm])
                if k[0] == "keyat":
                    return ("str", names[int(k[2])])
                return None
            env.sem = sem
            cd = EV.num_(EV.ev(L.code(I.value), env, want="int"))
            want = all(s == 0 for s in state.values())
            if (cd == 0) != want:
                c.viol("loading", "loading features %s reports %s" % ({k: "missing" if v is None else "ok" if v == 0 else "failed" for k, v in state.items()}, "success" if cd == 0 else "failure"), where)
                return
            n += 1
        c.ok("loading", where, "%d interpretations" % n)
    except EV.Unknown as u:
        c.undecided("loading", where, str(u))
    except (TypeError, IndexError, KeyError, StopIteration) as u:
        c.undecided("loading", where, "value not understood: %r" % u)


def colname(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == "column":
            return k[1]
        for x in k:
            r = colname(x)
            if r is not None:
                return r
    return None
