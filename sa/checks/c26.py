"""Loss names: symbolic evaluation of the factory for each name, and of the created object's loss function."""
from ..core import *
from .c25 import reference, PTS, SIGN

POINTWISE, PAIRWISE = "gbdt::Pointwise", "gbdt::Pairwise"
# name -> (base, reference formula, first argument is constant one)
NAMES = {"mse": (POINTWISE, "ComputeMSE", False), "logloss": (POINTWISE, "ComputeLogLoss", False),
         "huberized_hinge": (POINTWISE, "ComputeHuberizedHinge", False),
         "auc": (PAIRWISE, "ComputeHuberizedHinge", True), "pairwise_logloss": (PAIRWISE, "ComputeLogLoss", True),
         "gbrank": (PAIRWISE, "ComputeSquaredHinge", False), "lambdamart": (PAIRWISE, "ComputeLogLoss", True)}
OTHERS = ["", "nosuch", "MSE", "mse ", "log", "logloss2", "hinge", "rmse", "pairwise", "lambda"]


def set_globals(I, files=("loss_func/loss_func_factory.cc",)):
    """Static initialisation: containers defined with an initialiser list hold it at entry."""
    for g in I.db["globals"].values():
        if g.get("init") and g.get("file") in files and not g.get("const") and ("map" in g.get("t", "") or "vector" in g.get("t", "")):
            fr = IN.Frame({"name": "<init>", "id": "<init>", "file": g["file"]})
            I.frames.append(fr)
            try:
                I.rawwrite(("g", g["id"]), (), I.rv(g["init"]))
            finally:
                I.frames.pop()


def factory_files(c):
    return {g["file"] for g in c.db["globals"].values() if g.get("file", "").startswith("loss_func/")}


def create(c, f, name):
    files = factory_files(c)

    def pre(I):
        set_globals(I, files)
        I.rawwrite(("arg", 0), ((".", "loss_func"),), mk("str", name))
    return c.enter(f, pre=pre)


def object_of(c, I):
    """(root, class) of the created object when the value is a single heap object."""
    v = I.value
    while v.op in ("own", "uptr", "conv") and isinstance(v.a[0], Term):
        v = v.a[0]
    if v.op == "addr" and v.a[0][0] == "heap":
        return v.a[0], I.roottype.get(v.a[0])
    return None, None


def objects_of(I):
    """[(guard, root, class)] for each object that can be created; root None where the value is not understood,
    class None where nothing is created."""
    out = []

    def walk(v, g):
        while v.op in ("own", "uptr", "conv") and isinstance(v.a[0], Term):
            v = v.a[0]
        if v.op == "ite":
            walk(v.a[1], band(g, v.a[0]))
            walk(v.a[2], band(g, bnot(v.a[0])))
        elif g == 0 or EV.search(g, seed=1)[0] == "none":
            pass
        elif v.op == "addr" and v.a[0][0] == "heap":
            out.append((g, v.a[0], I.roottype.get(v.a[0])))
        elif v is NULL or v.op == "null":
            out.append((g, NULL, None))
        else:
            out.append((g, None, None))
    walk(I.value, 1)
    return out


def derived(c, cls, base):
    if cls == base:
        return True
    r = c.db["recs"].get(cls) or {}
    return any(derived(c, b if isinstance(b, str) else b["name"], base) for b in r.get("bases") or [])


def fields(c, cls):
    r = c.db["recs"].get(cls) or {}
    out = list(r.get("fields") or [])
    for b in r.get("bases") or []:
        out += fields(c, b if isinstance(b, str) else b["name"])
    return out


def loss_field(c, cls):
    for x in fields(c, cls):
        t = x.get("t", "")
        if "function<" in t and "double, double)" in t.replace(" ,", ",") and "tuple" in t or "(*)(double, double)" in t:
            return x["name"]
    return None


def check(c):
    c.rules.append("CreateLossFunc is evaluated with the configured name fixed to each documented name (the creator table is evaluated from its initialiser): it must create an object of a "
                   "pointwise/pairwise class whose stored loss, applied to symbolic arguments, equals the documented formula; only lambdamart re-ranks and weighs pairs by "
                   "|discount(rank1) - discount(rank2)| times the target difference; undocumented names create nothing and both training front ends stop before training then")
    f = c.fn("LossFuncFactory::CreateLossFunc", 1)
    where = "src/%s:%s" % (f["file"], f["l"])
    for name, (base, ref, one) in NAMES.items():
        I = create(c, f, name)
        for g, root, cls in objects_of(I):
            judge(c, I, name, g, root, cls, where)
    for name in OTHERS:
        I = create(c, f, name)
        for g, root, cls in objects_of(I):
            if root is NULL:
                c.ok("other:" + name, where)
            elif root is not None:
                c.viol("other:" + name, "the undocumented loss name '%s' creates a %s" % (name, cls), where)
            else:
                c.undecided("other:" + name, where, show(I.value)[:200])
    fronts(c)


def judge(c, I, name, g, root, cls, where):
    """One object the factory can create for a name, under the configurations g that lead to it."""
    base, ref, one = NAMES[name]
    when = "" if g == 1 else " when %s" % bshow(g)[:200]
    if root is NULL:
        return c.viol(name + ":created", "the loss name '%s' creates nothing%s" % (name, when), where)
    if root is None:
        return c.undecided(name + ":created", where, show(I.value)[:300])
    if not cls or not derived(c, cls, "gbdt::LossFunc"):
        return c.undecided(name + ":class", where, str(cls))
    c.decide(derived(c, cls, base), name + ":base", "the loss name '%s' creates a %s, which is not a %s loss%s" % (name, cls, base[6:].lower(), when), where)
    if not derived(c, cls, base):
        return
    fld = loss_field(c, cls)
    if fld is None:
        c.undecided(name + ":loss", where, "no loss function stored in " + cls)
    else:
        fv = under(I.qread(I.addr(root, ((".", fld),))), g)
        a, b = mk("sym", "target"), mk("sym", "score")
        TYPE[a] = TYPE[b] = "double"
        try:
            I.st.pc = 1
            v = L.call_values(I, fv, [a, b])
        except Exception as x:
            v = None
            c.undecided(name + ":loss", where, "%s: %s" % (show(fv)[:200], x))
        if v is not None:
            want = reference(ONE if one else a, b)[ref]

            def hook(env, key, t, a=a, ref=ref):
                if ref in ("ComputeLogLoss", "ComputeHuberizedHinge") and t is a:
                    return random.Random("%s/%s" % (env.seed, key)).choice(SIGN)
                return None
            for k, part in enumerate(("loss", "gradient", "hessian")):
                c.same(sel(v, (".", str(k)), "double"), want[k], "%s:%s" % (name, part), "%s of the loss named '%s'%s" % (part, name, when), where, hook=hook, floats=PTS)
    if base == PAIRWISE:
        rerank(c, I, root, cls, name, where, g)
        weighting(c, I, root, cls, name, where, g)


def at_object(I, root, g=1):
    """Substitution replacing the state of `this` at entry by the state of the created object."""
    this = mk("init", ("this",))

    def m(t):
        if t.op == "sel" and t.a[0] is this and t.a[1][0] == ".":
            v = under(I.qread(I.addr(root, (t.a[1],))), g)
            return v if isbool(v) else None     # flags set by the constructor; the rest is set up by Init
        return None
    return m


def rerank(c, I0, root, cls, name, where, g0=1):
    f = c.method(cls, "ComputeFunctionalGradientsAndHessians")
    I = c.enter(f, opaque={"Rerank": "effect", "SamplePair": "effect", "PairWeightingFunc": "pure", "DivideSamples": "pure"}, this_type=cls)
    g = 0
    seen = False
    for e in I.events:
        if e.kind == "call" and e.fn.endswith("Group::Rerank"):
            seen = True
            g = bor(g, bsubst(e.pc, lambda t: at_object(I0, root, g0)(t)))
            if e.loops:
                pass
    ok = g != 0
    if name == "lambdamart":
        if g == 0:
            c.viol(name + ":rerank", "lambdamart never re-ranks its groups", where)
        else:
            # under the loop conditions alone
            gi = 1
            for e in I.events:
                if e.kind == "call" and e.fn.endswith("Group::Rerank"):
                    gi = bsubst(inside(e.loops), lambda t: at_object(I0, root, g0)(t))
            c.implies(gi, g, name + ":rerank", "lambdamart visits a group without re-ranking it", where)
    else:
        c.never(g, name + ":rerank", "the loss named '%s' re-ranks groups" % name, where)


def weighting(c, I0, root, cls, name, where, g0=1):
    f = c.method(cls, "PairWeightingFunc")
    gsym = mk("sym", "grp")
    I0.st.pc = 1
    groot = ("arg", 97)
    I0.roottype[groot] = "gbdt::Group"
    proot = ("arg", 98)
    old = I0.opaque
    try:
        I0.opaque = dict(old or {}, **{"Group::y": "pure", "Group::rank": "pure", "y": "pure", "rank": "pure"})
        fv = call_method(I0, f, I0.addr(root), [I0.addr(groot)])
        w = under(I0.call_closure(fv, [("a", I0.addr(proot))]), g0)
    except Exception as x:
        return c.undecided(name + ":weight", where, "pair weight not evaluable: %s" % x)
    finally:
        I0.opaque = old
    p1, p2 = (sel(mk("init", proot), (".", x), "unsigned int") for x in ("first", "second"))
    ys = {t for t in subterms(w) if t.op == "ret" and t.a[0].endswith("Group::y")}
    rk = {t for t in subterms(w) if t.op == "ret" and t.a[0].endswith("Group::rank")}

    def one(S, p):
        r = [t for t in S if any(x is p for x in t.a[-1] if isinstance(x, Term)) or any(x is p for a in t.a if isinstance(a, tuple) for x in a if isinstance(x, Term))]
        return r[0] if len(r) == 1 else None
    if name != "lambdamart":
        c.decide(not rk, name + ":weight", "the loss named '%s' weighs pairs by rank" % name, where)
        return
    y1, y2, r1, r2 = one(ys, p1), one(ys, p2), one(rk, p1), one(rk, p2)
    if None in (y1, y2, r1, r2):
        return c.undecided(name + ":weight", where, show(w)[:500])
    for t in (y1, y2):
        TYPE[t] = "double"
    for t in (r1, r2):
        TYPE[t] = "unsigned int"
    b = sel(mk("init", ("arg", 0)), (".", "lambdamart_dcg_base"), "float")
    base = ite(flt(ZERO, b), b, num(2))

    def disc(r):
        return div(fn("log", base), fn("log", add(base, r)))
    want = mul(sub(y1, y2), fn("fabs", sub(disc(r1), disc(r2))))
    c.same(w, want, name + ":weight", "the weight lambdamart gives a pair", where, ints=[0, 1, 2, 3, 7, 98, 99, 100, 101, 150],
           floats=[Fraction(x) for x in (0, -1, 2, 3, 5)] + [Fraction(3, 2), Fraction(5, 4)])


def call_method(I, f, this, args):
    fr = IN.Frame({"name": "<entry>", "id": "<entry>", "file": f.get("file", "")})
    I.frames.append(fr)
    try:
        return I.call_fn(f, this, args)
    finally:
        I.frames.pop()


def fronts(c):
    """Both training front ends stop when no loss was created."""
    n = 0
    for nm in ("Train", "TrainPy"):
        for f in c.find(nm, opt=True):
            if f.get("file") not in ("main.cc",) and not (f.get("file") or "").startswith("python/"):
                continue
            own = os.path.dirname(f["file"])
            I = c.enter(f, opaque={"!pred": lambda g: None if os.path.dirname(g.get("file") or "") == own else "effect"})
            made = [e.ret for e in I.events if e.kind == "call" and e.fn.endswith("CreateLossFunc")]
            for e in I.events:
                if e.kind == "call" and e.fn.endswith("TrainGBDT"):
                    n += 1
                    for r in made:
                        null = bnot(tobool(r))
                        c.disjoint(e.pc, null, nm + ":unknown name", "training is started although no loss was created for the configured name", where=loc(e))
                    if not made:
                        c.undecided(nm + ":unknown name", loc(e), "no call of CreateLossFunc seen")
    c.counts["training_calls"] = n
