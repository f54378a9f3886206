"""C07: failures of steps are reported by the operation that needed them."""
import random

from ..core import *
from .. import interp as IN, lib as L
from ..callgraph import callees
from .c22 import run
from .c36 import Bad, role
from .recmodel import *

BOOLS = {"WriteScoreFile", "LoadColumn"}
POINTERS = ("Column", "LossFunc", "DataStore")
HEAVY = {"FitTreeToGradients": "effect", "AddTreeScores": "effect", "ComputeFunctionalGradientsAndHessians": "effect", "ComputeTreeScores": "effect",
         "strings::split": "pure", "JoinStrings": "pure", "TrimWhiteSpace": "effect", "ComputeFeatureImportance": "pure", "SplitExamples": "effect", "InitializeWithBaseForest": "effect"}


def is_status(t):
    return (t or "").replace("const ", "").strip(" &").endswith("util::status_internal::Status")


def kind_of(f):
    """How calling f can fail: by its status, by answering false, by answering null; None when it is not a fallible step of its own."""
    if f.get("internal") or f.get("islambda") or f.get("implicit"):
        return None
    t = f.get("rt") or ""
    if is_status(t) and "&" not in t:
        return "status"
    n = IN.sname(f["name"]).split("::")[-1]
    if t == "bool" and n in BOOLS:
        return "bool"
    if ("*" in t or "unique_ptr" in t) and any(p in t for p in POINTERS) and "vector" not in t and not f.get("ctor"):
        if n.startswith("Get") and f.get("rec") and "DataStore" in f["rec"] and (f.get("params") or []) or n == "CreateLossFunc":
            return "null"
    return None


def calls(x):
    if isinstance(x, dict):
        if x.get("k") in ("call", "mcall"):
            yield x
        for v in x.values():
            yield from calls(v)
    elif isinstance(x, list):
        for v in x:
            yield from calls(v)


def external(e):
    """A fallible step of the protocol buffer library."""
    return fallible(e.get("name") or "", e.get("t"))


def fallible(n, t):
    b = n.split("::")[-1]
    if not n.startswith("google::protobuf::") or "::Status::" in n:
        return None
    if is_status(t) and "&" not in (t or "") and b != "Status":
        return "status"
    if (t or "") == "bool" and b.startswith(("Parse", "Serialize", "MergeFrom", "MergePartial")):
        return "bool"
    return None


def opaque(f):
    if kind_of(f):
        return "effect"
    return None


def check(c):
    c.rules.append("for every operation and every fallible step it performs (a call that can report a status, false or null): whenever the step fails, the operation ends by terminating with a "
                   "diagnostic, throwing, or reporting a failure itself (status, false, null or recorded status), and performs no further fallible step afterwards")
    db = c.db
    memo = {}

    def direct(i):
        """f's own code (with the internal helpers, lambdas and constructors it is composed of) performs a fallible step."""
        if i in memo:
            return memo[i]
        memo[i] = any(external(e) for e in calls(db["fns"][i].get("body")))
        for x in callees(db["fns"][i]):
            g = db["fns"].get(x)
            if g is None:
                continue
            if kind_of(g) or g.get("body") is not None and part(g) and direct(x):
                memo[i] = True
        return memo[i]
    n = ops = 0
    for f in sorted(db["fns"].values(), key=lambda f: f["id"]):
        if f.get("body") is None or f.get("islambda") or f.get("implicit") or f.get("internal") or "_test" in (f.get("file") or "") or not direct(f["id"]):
            continue
        if "pybind11" in f["name"] or IN.sname(f["name"]).startswith(("PyInit", "Init")) and not f.get("rec"):
            continue
        name = f["name"].replace("gbdt::", "")
        kw = dict(this_type=f["rec"]) if f.get("rec") and not f.get("static") and not f.get("ctor") else {}
        I = c.enter(f, opaque=dict(HEAVY, **{"!pred": opaque}), **kw)
        ops += 1
        n += operation(c, f, name, I)
    c.counts["operations"], c.counts["steps"] = ops, n
    if n < 20:
        raise Missing("only %d fallible steps found" % n)
    c.rules.append("failures recorded in columns: LoadFeatures, ProcessBlock and Finalize are interpreted with any subset of the columns absent or carrying an error and must report exactly then; "
                   "checkpoint files: with any subset of the writes failing")
    features(c)
    for m in ("ProcessBlock", "Finalize"):
        recorded(c, m)
    files(c)


def part(f):
    """A function that is only a part of the operation calling it."""
    return f.get("internal") or f.get("islambda") or f.get("ctor") or f.get("implicit")


def own(c, e, f):
    """The step is performed by f itself, not by another operation inlined into it."""
    names = c.db.setdefault("_byname", {})
    if not names:
        for g in c.db["fns"].values():
            names.setdefault(g["name"], []).append(g)
    return all(n == f["name"] or n not in names or any(part(g) for g in names[n]) for n in e.stack)


def failing(v, k):
    if k == "status":
        return bnot(code_guard(v, 0))
    return bnot(IN.tobool(v))


def reported(f, I):
    R = bor(0, *I.deaths)
    t = f.get("rt") or ""
    if kind_of(f) == "status" or is_status(t):
        R = bor(R, failing(I.value, "status"))
    elif t == "bool" or kind_of(f) == "null":
        R = bor(R, failing(I.value, "null"))
    if f.get("rec") and not f.get("static"):
        s = sel(I.memval(("this",)), (".", "status_"))
        if s.op != "sel":
            R = bor(R, failing(s, "status"))
    return R


def never(c, g, name, what, where):
    """The guard is unsatisfiable: searched with status codes mostly zero, with larger numbers, and with the default domain."""
    rnd = random.Random("%s/%s" % (c.seed, name))

    def hook(env, k, t):
        return Fraction(0 if rnd.random() < 0.7 else rnd.randint(1, 16)) if k[0] == "code" else None
    for kw in (dict(hook=hook), dict(ints=[0, 1, 2, 300, 70000])):
        r, info = EV.search(g, seed=c.seed, **kw) if g != 0 else ("none", None)
        if r == "point":
            return c.viol(name, "%s; happens when %s" % (what, bshow(g)[:700]), where, [{str(k)[:160]: str(v) for k, v in list(info.leaf.items())[:12]}])
    c.never(g, name, what, where)


def operation(c, f, name, I):
    steps = []
    for i, e in enumerate(I.events):
        if e.kind != "call" or not own(c, e, f):
            continue
        if e.mode == "lib":
            k = fallible(e.fn, TYPE.get(e.ret))
            if k is None:
                continue
        elif e.mode not in ("effect", "pure", "virtual"):
            continue
        elif is_status(TYPE.get(e.ret)):
            k = "status"
        else:
            g = c.db["fns"].get(e.fid)
            k = kind_of(g) if g else None
            if k is None or k == "status":
                continue
        steps.append((i, e, k))
    R = reported(f, I)
    used = None
    for i, e, k in steps:
        g = band(e.pc, failing(e.ret, k))
        what = "%s:%s" % (name, e.fn)
        how = {"status": "reports a failure", "bool": "answers false", "null": "returns null"}[k]
        if k == "null":
            if used is None:
                used = set()
                todo = [I.value] + list(I.state.mem.values()) + [R] + [x.pc for x in I.events] + [a for x in I.events if x.kind == "call" for a in x.args]
                for t in todo:
                    if not isinstance(t, int):
                        used |= set(subterms(t))
            if e.ret not in used:
                continue
        if e.loops and e.fn.split("::")[-1] == "WriteScoreFile":
            continue        # the checkpoint loop, decided by interpretation
        never(c, band(g, bnot(R)), what, "%s %s and %s goes on without reporting a failure" % (e.fn, how, name), loc(e))
        for j, x, k2 in steps:
            if j > i and k2 != "null" and x.pc != 0 and set(x.loops) >= set(e.loops):
                never(c, band(g, x.pc), what + ">" + x.fn, "%s %s and %s is called nevertheless" % (e.fn, how, x.fn), loc(x))
    return len(steps)


def features(c):
    """LoadFeatures with columns absent or carrying an error."""
    f = c.fn("LoadFeatures")
    where = "src/%s:%s" % (f["file"], f["l"])
    kn, kd = role(f, "unordered_set<"), role(f, "DataStore")
    I = c.enter(f, mem=True, opaque={"GetColumn": "pure", "Column::status": "pure", "num_rows": "pure"})

    def body():
        N = 400 if c.tier == "thorough" else 80
        for it in range(N):
            r = random.Random("%s/f%d" % (c.seed, it))
            names = [("str", x) for x in "abcd"[:r.randint(0, 4)]]
            r.shuffle(names)
            st = {EV.hk(x): r.choice([0, 0, 0, None, r.randint(1, 16)]) for x in names}
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, k):
                if k == ("init", ("arg", kn)):
                    return list(names)
                if k[0] == "keyat":
                    return names[int(k[2])]
                if k[0] == "ret":
                    n = fnname(k)
                    if n == "GetColumn":
                        nm = EV.hk(k[2][1])
                        if nm not in st:
                            return ("null",)
                        return ("null",) if st[nm] is None else ("col", nm)
                    if n == "status" and k[2][0][:1] == ("col",):
                        return ("statusof", k[2][0][1])
                    if n == "num_rows":
                        return F(3)
                if k[0] == "init" and k[1][0] == "*" and isinstance(k[1][1], tuple) and k[1][1][0] == "statusof":
                    return ("statusof", k[1][1][1])
                if k[0] == "default":
                    return []
                if k[0] == "code" and isinstance(k[1], tuple):
                    if k[1][0] == "statusof":
                        return F(st[k[1][1]])
                    return F(k[1][1]) if k[1][0] == "status" else None
                return None
            env.sem = sem
            got = EV.num_(EV.ev(L.code(I.value), env, want="int"))
            bad = [x for x in names if st[EV.hk(x)] != 0]
            d = ", ".join("%s %s" % (x[1], "absent" if st[EV.hk(x)] is None else "with error %d" % st[EV.hk(x)] if st[EV.hk(x)] else "fine") for x in names)
            if bad and got == 0:
                raise Bad("features", "success is reported with the columns %s" % d, where)
            if not bad and got != 0:
                raise Bad("features:success", "failure is reported although every column was loaded (%s)" % d, where)
        return N
    run(c, "features", where, body)


def recorded(c, m):
    """Errors recorded in the columns by the tasks of a step surface as the step's status."""
    f = c.method("gbdt::TSVDataStore", m)
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, mem=True, opaque={"Column::status": "pure", "Add": "effect", "Finalize": "effect"}, this_type="gbdt::TSVDataStore")

    def body():
        work = [i for i, e in enumerate(I.events) if e.kind == "call" and e.fn.split("::")[-1] in ("Add", "Finalize")]
        for i, e in enumerate(I.events):
            if e.kind == "call" and e.fn.split("::")[-1] == "status" and work and i < max(work):
                raise Bad("order", "the status of the columns is read before they are processed", loc(e))
        N = 200 if c.tier == "thorough" else 60
        for it in range(N):
            r = random.Random("%s/r%d" % (c.seed, it))
            n = r.randint(0, 4)
            st = [r.choice([0, 0, r.randint(1, 16)]) for _ in range(n)]
            groups = {"bucketized_float_columns_": [], "raw_float_columns_": [], "string_columns_": []}
            table = EV.MapVal()
            for i in range(n):
                table.put(("str", "c%d" % i), ("col", i))
                groups[r.choice(sorted(groups))].append({"first": ("col", i), "second": F(i), "0": ("col", i), "1": F(i)})
            this = dict(groups, column_map_=table, status_=("status", 0, ("str", "")))
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, k):
                if k == ("init", ("this",)):
                    return this
                if k[0] == "ret" and fnname(k) == "status" and k[2][0][:1] == ("col",):
                    return ("statusof", k[2][0][1])
                if k[0] == "init" and k[1][0] == "*" and isinstance(k[1][1], tuple) and k[1][1][0] == "statusof":
                    return ("statusof", k[1][1][1])
                if k[0] == "code" and isinstance(k[1], tuple):
                    if k[1][0] == "statusof":
                        return F(st[int(k[1][1])])
                    return F(k[1][1]) if k[1][0] == "status" else None
                return None
            env.sem = sem
            got = EV.num_(EV.ev(L.code(I.value), env, want="int"))
            if any(st) and got == 0:
                raise Bad("recorded", "success is reported with columns of status %s" % st, where)
            if not any(st) and got != 0:
                raise Bad("recorded:success", "failure is reported although no column has an error (%d columns)" % n, where)
        return N
    run(c, m, where, body)


def files(c):
    """Checkpoint files whose writing fails."""
    fs = [f for f in c.find("EvaluateForest") if any("list<int" in p["t"] for p in f["params"])]
    if not fs:
        raise Missing("EvaluateForest(..., list<int>, ...)")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    kf, kp, kd = role(f, "Forest"), role(f, "list<int"), role(f, "string")
    I = c.enter(f, mem=True, opaque={"LoadFeatures": "effect", "CollectAllFeatures": "effect", "DataStore::num_rows": "pure", "AddTreeScores": "effect", "ComputeTreeScores": "effect", "WriteScoreFile": "effect"})
    evs = [e for e in I.events if e.kind == "call" and e.fn.split("::")[-1] == "WriteScoreFile"]
    if not evs:
        return

    def body():
        N = 400 if c.tier == "thorough" else 80
        for it in range(N):
            r = random.Random("%s/w%d" % (c.seed, it))
            nt = r.randint(0, 4)
            req = [r.randint(1, 5) for _ in range(r.randint(0, 4))]
            fail = r.choice([None, 1, 2, 3, 4, 5])
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, k):
                if k[0] == "init":
                    if k[1] == ("arg", kf):
                        return {"tree": [{"id": F(j)} for j in range(nt)]}
                    if k[1] == ("arg", kp):
                        return [F(x) for x in req]
                    if k[1] == ("arg", kd):
                        return ("str", "D")
                if k[0] == "ret" and fnname(k) == "num_rows":
                    return F(1)
                if k[0] == "ret" and fnname(k) == "WriteScoreFile":
                    return k[2][0] != ("str", "D/forest.%s.score" % fail)
                if k[0] == "out" and fnname(k) == "AddTreeScores":
                    return k[5]
                if k[0] == "code":
                    return F(k[1][1]) if isinstance(k[1], tuple) and k[1][0] == "status" else F(0)
                return None
            env.sem = sem
            got = EV.num_(EV.ev(L.code(I.value), env, want="int"))
            want = fail in req and fail <= nt
            d = "checkpoints %s of %d trees requested" % (req, nt)
            if want and got == 0:
                raise Bad("file", "success is reported although the scores of %d trees could not be written (%s)" % (fail, d), where)
            if not want and got != 0:
                raise Bad("file:success", "failure is reported although every file was written (%s)" % d, where)
        return N
    run(c, "checkpoint files", where, body)
