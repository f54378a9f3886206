"""C47: training is run on exactly the targets, weights, groups, features, loss and base forest it was given.

Every function that calls TrainGBDT is interpreted up to that call; the function values handed over for targets and weights
are applied to an arbitrary row and compared with what the arguments and the configuration ask for. TrainGBDT itself is
interpreted up to the initialisation of the loss.
"""
from ..core import *
from .. import lib as L
from .. import callgraph as CG
from .c40 import Native

LOOK = ("GetColumn", "GetStringColumn", "GetRawFloatColumn", "GetBucketizedFloatColumn")
PTS = [Fraction(x) for x in (-2, -1, 0, 1, 2)] + [Fraction(1, 2)]


def last(n):
    return n.split("::")[-1]


def mode(keep):
    def f(h):
        s = last(h["name"])
        if h["name"].startswith("gbdt::DataStore::") and s in LOOK:
            return "pure"
        if (h.get("rec") or "").endswith("RawFloatColumn"):
            return None
        if s in ("CreateLossFunc", "LoadForestOrDie"):
            return "pure"
        if h["id"] in keep:
            return None
        return "effect"
    return f


def lookup(t, store, name):
    return t.op == "ret" and last(t.a[0]) == "GetRawFloatColumn" and len(t.a[1]) == 2 and t.a[1][1] is name and store in (None, t.a[1][0])


def check(c):
    c.rules.append("every function that calls TrainGBDT is interpreted up to the call: the configuration, the union of the configured features, the loss function of the configuration and the base forest are handed over, and "
                   "the functions for weights and targets, applied to an arbitrary row, equal: the weight given, else the configured weight column, else 1; the target given, else the configured target column, "
                   "binarised if so configured; TrainGBDT initialises the loss with the store's rows, these functions and the configured group column and fits every tree with these weights")
    T = c.fn("TrainGBDT")
    ps = T["params"]
    kc = next(i for i, p in enumerate(ps) if "Config" in p["t"])
    kf = [i for i, p in enumerate(ps) if "std::function" in p["t"]]
    kl = next(i for i, p in enumerate(ps) if "LossFunc" in p["t"])
    kb = next(i for i, p in enumerate(ps) if "Forest" in p["t"] and p["t"].startswith("const"))
    ks = next(i for i, p in enumerate(ps) if "DataStore" in p["t"])
    kn = next(i for i, p in enumerate(ps) if "unordered_set" in p["t"])
    if len(kf) != 2:
        c.undecided("TrainGBDT", "", "weights and targets are not two functions")
        return
    g = CG.graph(c.db)
    direct = sorted(i for i, out in g.items() if T["id"] in out and i != T["id"])
    N = Native(c)
    tr = N.cls[None].get("train")
    entries = []
    for i in direct:
        f = c.db["fns"][i]
        if f["file"].startswith("python/") and tr and tr["fn"] in c.db["fns"]:
            entries.append(c.db["fns"][tr["fn"]])
        else:
            up = [f]
            while True:     # from the outermost function of main.cc without arguments
                cs = [c.db["fns"][j] for j, out in g.items() if up[-1]["id"] in out and last(c.db["fns"][j]["name"]) != "main" and j != up[-1]["id"]]
                if not (up[-1].get("params") and len(cs) == 1):
                    break
                up.append(cs[0])
            entries.append(up[-1])
    small = ("GetTargetsOrDie", "GetSampleWeightsOrDie", "GetGroupOrDie", "GetFeaturesSetFromConfig")
    for f in {x["id"]: x for x in entries}.values():
        below = CG.reach(c.db, f["id"])
        keep = {j for j in below if c.db["fns"][j]["file"].startswith("python/") or c.db["fns"][j]["file"] == "main.cc"
                or last(c.db["fns"][j]["name"]) in small or (c.db["fns"][j]["file"] == "gbdt_algo/utils.cc" and any("function<" in (c.db["fns"][x].get("rt") or "") for x in (j,)))
                or T["id"] in CG.reach(c.db, j) and j != T["id"]}
        name = last(f["name"])
        try:
            I = c.enter(f, opaque={"!pred": mode(keep)})
        except Missing:
            raise
        es = [e for e in I.events if e.kind == "call" and last(e.fn) == "TrainGBDT"]
        if not es:
            c.undecided(name, "src/%s:%s" % (f["file"], f["l"]), "no call of TrainGBDT seen")
        for e in es:
            entry(c, N, I, f, name, e, kc, kf, kl, kb, ks, kn)
    # TrainGBDT passes on what it is given
    I = c.enter(T, opaque={"!pred": lambda h: "pure" if h["name"].startswith("gbdt::DataStore::") and last(h["name"]) in LOOK else None if last(h["name"]) == "GetGroupOrDie" else "effect"})
    inits = [e for e in I.events if e.kind == "call" and last(e.fn) == "Init" and "Loss" in e.fn]
    if not inits:
        c.undecided("TrainGBDT:init", "", "no initialisation of the loss seen")
    cfg = argval(T, kc)
    for e in inits:
        if len(e.args) != 4:
            c.undecided("TrainGBDT:init", loc(e), "other arguments")
            continue
        c.decide(e.this is argval(T, kl), "TrainGBDT:loss", "another loss function is initialised than the one given", loc(e))
        c.decide(e.args[1] is argval(T, kf[0]), "TrainGBDT:weights", "the loss gets the weights %s" % show(e.args[1])[:150], loc(e))
        c.decide(e.args[2] is argval(T, kf[1]), "TrainGBDT:targets", "the loss gets the targets %s" % show(e.args[2])[:150], loc(e))
        n = sel(cfg, (".", "group_column"), "std::string")
        has = bnot(eq0(size(n)))
        got, okg = 0, True
        for v, gd in leaves(e.args[3]):
            if v.op == "null":
                continue
            if v.op == "ret" and last(v.a[0]) == "GetStringColumn" and v.a[1][-1] is n:
                got = bor(got, gd)
            elif v.op == "ret" and last(v.a[0]).startswith("Get") and v.a[1][-1].op == "sel" and v.a[1][-1].a[0] is cfg:
                c.viol("TrainGBDT:group", "the loss gets %s as its groups" % show(v)[:150], loc(e))
            else:
                okg = False
        if not okg:
            c.undecided("TrainGBDT:group", loc(e), show(e.args[3])[:200])
        else:
            c.implies(band(e.pc, has), got, "TrainGBDT:group", "the loss does not get the configured group column", loc(e))
            c.disjoint(band(e.pc, bnot(has)), got, "TrainGBDT:group", "the loss gets a group column although none is configured", loc(e))
    for e in I.events:
        if e.kind == "call" and last(e.fn) == "FitTreeToGradients":
            c.decide(any(a is argval(T, kf[0]) for a in e.args), "TrainGBDT:fit", "a tree is fitted with other weights than the ones given", loc(e))
            c.decide(not any(a is argval(T, kf[1]) for a in e.args), "TrainGBDT:fit", "a tree is fitted with the targets as weights", loc(e))
        if e.kind == "call" and last(e.fn) == "LoadFeatures":
            c.decide(any(a is argval(T, kn) for a in e.args), "TrainGBDT:features", "other features are loaded than the ones given", loc(e))


def leaves(v, g=1):
    if v.op == "ite":
        yield from leaves(v.a[1], band(g, v.a[0]))
        yield from leaves(v.a[2], band(g, bnot(v.a[0])))
    elif g != 0:
        yield v, g


def entry(c, N, I, f, name, e, kc, kf, kl, kb, ks, kn):
    where = loc(e)
    cfg = e.args[kc]
    base = cfg
    if not any(t.op == "out" and "FromJson" in t.a[0] for t in subterms(cfg)):
        c.undecided(name + ":config", where, show(cfg)[:200])
        return
    c.decide(cfg.op == "out", name + ":config", "TrainGBDT gets a configuration that was changed after it was read: %s" % show(cfg)[:200], where)
    while base.op != "out" and base.a and any(isinstance(x, Term) for x in base.a):
        base = next(x for x in base.a if isinstance(x, Term))
    cfg = base if base.op == "out" else cfg
    fld = lambda n, t="std::string": sel(cfg, (".", n), t)
    pnames = {}
    if f["file"].startswith("python/"):
        kws = keywords(N)
        for k, p in enumerate(f["params"]):
            if "vector<float>" in p["t"] and k < len(kws):
                pnames[kws[k]] = argval(f, k)
    k = mk("sym", "row")
    TYPE[k] = "int"
    # features
    ns = e.args[kn]
    fl = {x.a[1][1] for x in subterms(ns) if x.op == "sel" and x.a[0] is cfg}
    if ns.op in ("munion", "setof", "sel"):
        c.decide(fl == {"float_feature", "categorical_feature"}, name + ":features", "trained features are %s" % show(ns)[:200], where)
    else:
        c.undecided(name + ":features", where, show(ns)[:200])
    # loss
    lf = e.args[kl]
    if lf.op == "ret" and last(lf.a[0]) == "CreateLossFunc":
        c.decide(lf.a[1][-1] is cfg, name + ":loss", "the loss is made from another configuration", where)
    else:
        c.undecided(name + ":loss", where, show(lf)[:200])
    # base forest
    for v, g in leaves(e.args[kb]):
        if v.op == "null" and g == 1:
            c.viol(name + ":base", "the base forest is never used", where)
    if e.args[kb].op != "ite":
        if e.args[kb].op != "null":
            c.undecided(name + ":base", where, show(e.args[kb])[:200])
    else:
        some = bor(*[g for v, g in leaves(e.args[kb]) if v.op != "null"])
        given = None
        for q, p in enumerate(f["params"]):
            if "Forest" in p["t"]:
                given = tobool(argval(f, q))
        if given is None:
            flags = {t for b in [e.args[kb]] for t in subterms(b) if "FLAGS_base_model_file" in show(t) and t.op == "size"}
            if len(flags) == 1:
                given = bnot(eq0(flags.pop()))
        if given is None:
            c.undecided(name + ":base", where, show(e.args[kb])[:200])
        else:
            c.implies(band(e.pc, given), some, name + ":base", "a base forest is given and not used", where)
            c.implies(band(e.pc, some), given, name + ":base", "a base forest is used although none is given", where)
    # weights and targets
    for which, kk, col, dflt in (("w", kf[0], "weight_column", num(1)), ("y", kf[1], "target_column", None)):
        I.st.pc = 1
        try:
            v = L.call_values(I, e.args[kk], [k])
        except Exception as x:
            c.undecided(name + ":" + which, where, "function not applicable: %s" % x)
            continue
        par, colv, other = None, None, []
        for t in subterms(v):
            if t.op == "sel" and t.a[1][0] == "[" and t.a[1][1] is k:
                TYPE.setdefault(t, "float")
                if t.a[0] is pnames.get(which):
                    par = t
                elif any(lookup(x, e.args[ks], fld(col)) for x in subterms(t)):
                    colv = t
                else:
                    other.append(t)
        if other:
            c.viol(name + ":" + which + ":source", "the %s of a row is read from %s" % ("weight" if which == "w" else "target", show(other[0])[:200]), where)
            continue
        if any(t.op in ("icall", "call", "ret") and t is not None and not any(lookup(x, None, fld(col)) for x in subterms(t)) and any(s is k for s in subterms(t)) for t in subterms(v)):
            c.undecided(name + ":" + which, where, show(v)[:200])
            continue
        fresh = lambda s: (lambda t: (TYPE.setdefault(t, "float"), t)[1])(mk("sym", s))
        want = colv if colv is not None else fresh("value of the configured %s" % col)
        if dflt is not None:
            want = ite(eq0(size(fld(col))), dflt, want)
        if which in pnames:
            want = ite(eq0(size(pnames[which])), want, par if par is not None else fresh("value of the argument " + which))
        if which == "y":
            want = ite(atom(fld("binarize_target", "bool")), ite(flt(ZERO, want), ONE, num(-1)), want)
        if v is not want:
            v, want = ite(e.pc, v, ZERO), ite(e.pc, want, ZERO)
        c.same(v, want, name + ":" + which, "the %s used for a row" % ("weight" if which == "w" else "target"), where, floats=PTS, ints=[0, 1, 2])


def keywords(N):
    return (N.cls[None].get("train") or {}).get("names") or []
