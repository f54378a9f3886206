"""Checkpoint score files hold the scores of exactly the first n trees."""
from ..core import *
from .recmodel import *
from .c36 import role, pick, rnode, Short

BASE = {"LoadFeatures": "effect", "CollectAllFeatures": "effect", "DataStore::num_rows": "pure"}


def check(c):
    c.rules.append("the checkpoint loop is summarised as a fold and its file writes (stream operations inlined) are interpreted on small forests and requests: for every requested n up to the number of trees "
                   "exactly the file named after n is written with the sums of the first n trees; GetTestPoints is compared with its specification; main hands both the same forest")
    evaluate(c)
    points(c)
    main(c)


def evaluate(c):
    fs = [f for f in c.find("EvaluateForest") if any("list<int" in p["t"] for p in f["params"])]
    if not fs:
        raise Missing("EvaluateForest(..., list<int>, ...)")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    kf, kp, kd = role(f, "Forest"), role(f, "list<int"), role(f, "string")
    big = max(len(g["params"]) for g in c.find("ComputeTreeScores::AddTreeScores"))
    I = c.enter(f, mem=True, opaque={**BASE, "!pred": lambda g: "effect" if g["name"].split("::")[-1] == "AddTreeScores" and len(g["params"]) == big or
                                     g.get("ctor") and g.get("rec", "").endswith("ComputeTreeScores") else None})
    adds = [e for e in I.events if e.kind == "call" and e.fn.endswith("AddTreeScores")]
    if not adds:
        return c.undecided("files", where, "no tree is scored")
    ga = c.db["fns"][adds[0].fid]
    kt, ks = role(ga, "TreeNode"), role(ga, "vector<double>")
    kc = [k for k, p in enumerate(ga["params"]) if p["t"].replace("const ", "").strip() == "double"]
    evs = [e for e in I.events if e.kind in ("stream", "sout") or e.kind == "write" and isinstance(e.val, Term) and e.val.op == "stream"]
    N = 1500 if c.tier == "thorough" else 200
    n = 0
    try:
        for it in range(N):
            r = random.Random("%s/w%d" % (c.seed, it))
            nt, nr = r.randint(0, 4), r.randint(1, 3)
            trees = [rnode(r) for _ in range(nt)]
            T = [[pick(r, t) for _ in range(nr)] for t in trees]
            req = [r.choice((1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 0, -1)) for _ in range(r.randint(0, 4))]
            env = EV.Env(it)
            env.steps = 10 ** 6
            fl = Files(env)

            def sem(env, k):
                if k[0] == "init":
                    if k[1] == ("arg", kf):
                        return {"tree": [{**t, "id": F(j)} for j, t in enumerate(trees)]}
                    if k[1] == ("arg", kp):
                        return [F(x) for x in req]
                    if k[1] == ("arg", kd):
                        return ("str", "D")
                if k[0] == "ret" and fnname(k) == "num_rows":
                    return F(nr)
                if k[0] == "code":
                    return F(0)
                if k[0] == "out" and fnname(k) == "AddTreeScores" and k[3] == ks:
                    t = args_of(I, k, env)[kt]
                    if isinstance(t, tuple) and t[:2] == ("addr", ("arg", kf)) and t[2] and t[2][-1][0] == "[":
                        j = int(t[2][-1][1])
                    elif isinstance(t, dict):
                        j = int(t["id"])
                    else:
                        raise EV.Unknown("tree %s" % (str(t)[:80],))
                    const = EV.num_(args_of(I, k, env)[kc[0]]) if kc else F(0)
                    if len(k[5]) != nr:
                        raise Short(len(k[5]))
                    return [F(x) + y + const for x, y in zip(k[5], T[j])]
                return fl.sem(k)
            env.sem = sem
            for e in trace(evs, env):
                fl.feed(e)
            want = {}
            for q in set(req):
                if 1 <= q <= nt:
                    want["D/forest.%d.score" % q] = [sum((t[i] for t in T[:q]), F(0)) for i in range(nr)]
            d = "requested %s of a forest of %d trees over %d rows" % (req, nt, nr)
            for p in want:
                if p not in fl.files:
                    return c.viol("files", "no file %s is written (%s; written: %s)" % (p, d, sorted(fl.files)), where)
                lines = fl.files[p].rstrip("\n").split("\n")
                if lines != [str(x) for x in want[p]]:
                    return c.viol("files", "%s holds %s, the scores of its trees are %s (%s)" % (p, lines, [str(x) for x in want[p]], d), where)
            for p in fl.files:
                if p not in want and p not in ("D/forest.0.score", "D/forest.-1.score"):
                    return c.viol("files", "%s is written although it was not requested (%s)" % (p, d), where)
            if EV.num_(EV.ev(L.code(I.value), env, want="int")) != 0:
                return c.viol("files:success", "failure is reported although everything was written (%s)" % d, where)
            n += 1
        c.ok("files", where, "%d interpretations" % n)
    except Short as s:
        c.viol("files", "the score vector has %s entries for %d rows" % (s, nr), where)
    except EV.Stuck as u:
        c.viol("files:element", "an element that does not exist is read: %s (requested %s of a forest of %d trees over %d rows)" % (u, req, nt, nr), where)
    except EV.Unknown as u:
        c.undecided("files", where, str(u))
    except (TypeError, IndexError, KeyError) as u:
        c.undecided("files", where, "value not understood: %r" % u)


def points(c):
    f = c.fn("GetTestPoints")
    where = "src/%s:%s" % (f["file"], f["l"])
    kc = role(f, "Config")
    kn = next(k for k in range(len(f["params"])) if k != kc)
    I = c.enter(f, mem=True)
    n = 0
    try:
        for size in range(0, 8):
            for iv in range(-1, 9):
                env = EV.Env(size * 100 + iv)

                def sem(env, k):
                    if k[0] == "init" and k[1] == ("arg", kc):
                        return {"eval_interval": F(iv)}
                    if k[0] == "sym" and k[1:] == ("arg", kn):
                        return F(size)
                    return None
                env.sem = sem
                got = EV.ev(I.value, env)
                if not isinstance(got, list):
                    raise EV.Unknown("test points")
                want = {size} if iv <= 0 else set(range(size, 0, -iv))
                if {int(x) for x in got} - {0} != want - {0}:
                    return c.viol("points", "with %d trees and interval %d the checkpoints are %s, expected %s" % (size, iv, sorted(int(x) for x in got), sorted(want)), where)
                n += 1
        c.ok("points", where, "%d interpretations" % n)
    except EV.Unknown as u:
        c.undecided("points", where, str(u))
    except (TypeError, IndexError, KeyError) as u:
        c.undecided("points", where, "value not understood: %r" % u)


def main(c):
    """The program evaluates the loaded forest at the checkpoints of that forest."""
    fs = c.find("Test", opt=True)
    if not fs:
        fs = c.find("main")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, mem=True, opaque={"EvaluateForest": "effect", "GetTestPoints": "pure", "LoadDataStoreOrDie": "effect", "LoadForestOrDie": "effect", "ReadFileToStringOrDie": "effect", "JsonUtils::FromJson": "effect"})
    ev = [e for e in I.events if e.kind == "call" and e.fn.endswith("EvaluateForest")]
    gp = [e for e in I.events if e.kind == "call" and e.fn.endswith("GetTestPoints")]
    if len(ev) != 1 or len(gp) != 1:
        return c.undecided("main", where, "%d evaluations" % len(ev))
    e, g = ev[0], gp[0]
    h = c.db["fns"][e.fid]
    kp, kf = role(h, "list<int"), role(h, "Forest")
    if kp is None:
        return c.undecided("main", loc(e), "evaluation without checkpoints")
    c.same(e.args[kp], g.ret, "main:points", "the checkpoints scores are written for", loc(e))
    q = c.fn("GetTestPoints")
    kc = role(q, "Config")
    kn = next(k for k in range(len(q["params"])) if k != kc)
    c.same(g.args[kn], size(sel(e.args[kf], (".", "tree"))), "main:size", "the number of trees checkpoints are computed for", loc(g), ints=[0, 1, 2, 3])
