"""Group assignment covers all rows."""
from ..core import *
from .lossmodel import *
from .c22 import run
from .c36 import Bad

COL = {"StringColumn::max_int": "pure", "IntegerCol::operator[]": "pure", "IntegerCol::size": "pure", "StringColumn::size": "pure", "Column::size": "pure",
       "IntegerizedColumn::size": "pure"}


def check(c):
    c.rules.append("Pairwise::Init is summarised together with the constructor of Group and interpreted on small data sets (group codes including the code of missing values, and no group "
                   "column at all): every row must be in exactly one group, two rows share a group exactly when their codes agree, every group index used is inside the group table; "
                   "training hands the configured group column to Init, or none if none is configured")
    try:
        S = Loss(c, "Pairwise", {}, lambda p, k: ("fun", "loss") if "function" in p["t"] or "Func" in p["t"] else None)
        G = Groups(c)
        run(c, "partition", S.whereI, lambda: partition(c, S, G))
        indices(c, S)
    except EV.Unknown as u:
        c.undecided("groups", "", str(u))
    run(c, "configured", "", lambda: configured(c))


def prim(W, it):
    """Column accessors and work division."""
    def f(env, k, I):
        if k[0] == "ret":
            m = fnname(k)
            if m == "DivideSamples" and len(k[2]) == 2 and not isinstance(k[2][0], (list, tuple)):
                r = random.Random("%s/d" % it)
                n = int(k[2][0])
                cuts = [0] + sorted(r.randint(0, n) for _ in range(r.randint(0, 2))) + [n]
                return [{"first": F(x), "second": F(y)} for x, y in zip(cuts, cuts[1:])]
            if m == "CreateAllSamples":
                return [F(i) for i in range(int(k[2][0]))]
            if m == "max_int":
                return F(W.M)
            if m == "size":
                return F(W.n)
            if m == "operator[]":
                return F(W.codes[int(k[2][-1])])
        if k[0] == "icall" and k[1] == ("fun", "y"):
            return W.Y[int(k[2][0])]
        if k[0] == "icall" and k[1] == ("fun", "w"):
            return W.W[int(k[2][0])]
        if k[0] in ("init", "sel"):
            # representation of the group column: as many dictionary entries as codes, the codes by row
            s = str(k)
            if k[0] == "init" and k[1][0] == "*" and k[1][1] == ("col",):
                return {"map_to_strings_": [("str", "g%d" % j) for j in range(W.M)], "col_": ("codes",)}
        return None
    return f


class World:
    def __init__(self, tag, group=None, n=None, M=None):
        r = self.r = random.Random(tag)
        self.n = n = r.randint(0, 5) if n is None else n
        self.M = r.randint(1, 4) if M is None else M
        self.codes = [r.randrange(self.M) for _ in range(n)]
        self.Y = [F(r.randint(-1, 2)) for _ in range(n)]
        self.W = [F(r.choice([0, 1, 1, 2, 3])) for _ in range(n)]
        self.group = r.random() < .7 if group is None else group
        self.args = {"num_rows": F(n), "w": ("fun", "w"), "y": ("fun", "y"), "group": ("col",) if self.group else ("null",)}
        self.byrow = self.codes if self.group else [0] * n
        self.text = "group codes %s" % self.codes if self.group else "%d rows, no group column" % n


CFG = {"pair_sampling_rate": F(2), "equal_group_weight": False, "pair_weight_by_delta_target": False}


def setup(S, W, it, cfg=None):
    """State of the loss object after construction and Init."""
    cf = {**CFG, **(cfg or {})}

    def ca(p, k):
        if "Config" in p["t"]:
            return {**cf, "lambdamart_dcg_base": F(0)}
        if p["t"].replace("const ", "").strip() == "bool":
            return cf.get("rerank", False)
        return ("fun", "loss") if "unc" in p["t"] else None
    S.ctor_args = ca
    env = EV.Env(it)
    env.steps = 10 ** 6
    this = S.construct(env)
    env = EV.Env(it)
    env.steps = 2 * 10 ** 6
    return S.initialise(env, this, W.args, prim(W, it))


def groups_field(c, S):
    r = c.db["recs"].get("gbdt::" + S.cls)
    fs = [x["name"] for x in r["fields"] if "Group>" in x["t"] or x["t"].endswith("Group")] if r else []
    if len(fs) != 1:
        raise EV.Unknown("the field that holds the groups")
    return fs[0]


def partition(c, S, G):
    N = 600 if c.tier == "thorough" else 60
    gf = groups_field(c, S)
    got, why = 0, None
    for it in range(N):
        W = World("%s/g%d" % (c.seed, it))
        try:
            this, code = setup(S, W, it)
            if code != 0:
                raise Bad("init", "Init fails on valid data (%s)" % W.text, S.whereI)
            gs = this.get(gf) if isinstance(this, dict) else None
            if not isinstance(gs, list):
                raise EV.Unknown("groups")
            rows = [G.rows(g) for g in gs]
        except EV.Unknown as u:
            why = u
            continue
        where = {}
        for j, rs in enumerate(rows):
            for x in rs:
                if x in where:
                    raise Bad("once", "row %d is in group %d and again in group %d (%s)" % (x, where[x], j, W.text), S.whereI)
                if not 0 <= x < W.n:
                    raise Bad("range", "group %d holds row %d of %d rows (%s)" % (j, x, W.n, W.text), S.whereI)
                where[x] = j
        for x in range(W.n):
            if x not in where:
                raise Bad("all", "row %d is in no group (%s)" % (x, W.text), S.whereI)
            for y in range(x):
                if (W.byrow[x] == W.byrow[y]) != (where[x] == where[y]):
                    raise Bad("same", "rows %d and %d have %s group value but are in %s (%s)" % (
                        y, x, "the same" if W.byrow[x] == W.byrow[y] else "a different", "different groups" if where[x] != where[y] else "one group", W.text), S.whereI)
        got += 1
    if got < N // 2:
        raise EV.Unknown(why or "no interpretation")
    return got


def indices(c, S):
    """Group codes index inside the table of groups."""
    evs = [e for e in S.Ii.events if e.kind == "index" and mentions(e.i, lambda t: t.op == "ret" and "IntegerCol" in t.a[0] and t.a[0].endswith("operator[]"))]
    for n, e in enumerate(evs):
        bad = None
        for it in range(60):
            W = World("%s/x%d" % (c.seed, it), group=True)
            env = EV.Env(it)
            env.steps = 10 ** 6
            p = prim(W, it)

            def sem(env, k):
                if k == ("init", ("this",)):
                    return {"pair_sampling_rate_": F(2)}
                if k[0] == "sym" and k[1] == "arg":
                    return W.args[INIT[k[2]]]
                if k[0] == "init" and k[1][0] == "arg":
                    return W.args[INIT[k[1][1]]]
                return p(env, k, S.Ii)
            env.sem = sem
            try:
                for x in trace([e], env):
                    i, m = EV.num_(EV.ev(e.i, env, want="int")), EV.num_(EV.ev(size(e.val), env, want="int"))
                    if not 0 <= i < m:
                        bad = "row with group code %d of %d codes uses entry %d of a table of %d" % (W.codes[int(env.dyn[IN.LOOPS[e.loops[-1]].idx])] if e.loops else i, W.M, i, m)
            except EV.Unknown as u:
                c.undecided("index:%d" % n, loc(e), str(u))
                break
            if bad:
                break
        else:
            bad = wide(c, S, e)
            if not bad:
                c.ok("index:%d" % n, loc(e))
        if bad:
            c.viol("index", "a group code does not select the group of that code: a " + bad, loc(e))
    c.counts["group_index_sites"] = len(evs)


def wide(c, S, e):
    """Different codes select different groups, however many groups there are."""
    for M, codes in ((70000, [3, 65539, 259, 65538, 2, 69999]), (300, [1, 257, 2, 258, 299])):
        W = World("%s/wide%d" % (c.seed, M), group=True, n=len(codes), M=M)
        W.codes = codes
        env = EV.Env(M)
        env.steps = 10 ** 6
        p = prim(W, M)

        def sem(env, k):
            if k == ("init", ("this",)):
                return {"pair_sampling_rate_": F(2)}
            if k[0] == "sym" and k[1] == "arg":
                return W.args[INIT[k[2]]]
            if k[0] == "init" and k[1][0] == "arg":
                return W.args[INIT[k[1][1]]]
            return p(env, k, S.Ii)
        env.sem = sem
        seen = {}
        try:
            for x in trace([e], env):
                i = EV.num_(EV.ev(e.i, env, want="int"))
                r = int(env.dyn[IN.LOOPS[e.loops[-1]].idx]) if e.loops else None
                if r is None or not 0 <= r < len(codes):
                    return None
                if i in seen and codes[seen[i]] != codes[r]:
                    return "row with group code %d and one with group code %d of %d codes both use entry %d" % (codes[seen[i]], codes[r], M, i)
                seen[i] = r
        except (EV.Unknown, KeyError):
            return None
    return None


def configured(c):
    """TrainGBDT hands the configured column to Init."""
    f = c.fn("TrainGBDT")
    I = c.enter(f, mem=True, opaque={"!pred": lambda g: None if g["name"].split("::")[-1] in ("GetGroupOrDie",) or g["name"] == f["name"] or g.get("file") == f["file"] and "olumn" in (g.get("rt") or "") else "effect"})
    inits = [e for e in I.events if e.kind == "call" and e.fn.endswith("::Init")]
    if not inits:
        raise EV.Unknown("no call of Init")
    n = 0
    kc = next(k for k, p in enumerate(f["params"]) if "Config" in p["t"])
    for e in inits:
        g = e.args[3] if len(e.args) > 3 else None
        if g is None:
            raise EV.Unknown("arguments of Init")
        for nm in ("", "query"):
            env = EV.Env(n)
            env.steps = 10 ** 5
            asked = []

            def sem(env, k):
                if k[0] == "init" and k[1] == ("arg", kc):
                    return {"group_column": ("str", nm)}
                if k[0] == "ret" and "Get" in fnname(k):
                    asked.append(k)
                    return ("column", fnname(k), k[2])
                if k[0] == "truth":
                    return True
                return None
            env.sem = sem
            v = EV.ev(g, env)
            if nm == "" and v != ("null",):
                raise Bad("configured:none", "a group column is used although none is configured", loc(e))
            if nm:
                if v == ("null",):
                    raise Bad("configured", "the configured group column is not used", loc(e))
                if not (isinstance(v, tuple) and v[0] == "column"):
                    raise EV.Unknown("group column %s" % (str(v)[:80],))
                if ("str", nm) not in v[2]:
                    raise Bad("configured", "the group column asked for is not the configured one: %s" % (str(v[2])[:80],), loc(e))
                if "tring" not in v[1]:
                    raise EV.Unknown("column accessor %s" % v[1])
            n += 1
    return n
