"""Tree growth: leaf limit, best-first order, choice of the split, children."""
from ..core import *
from . import treemodel as TM


def strip(t, base):
    """Field path of t below base, or None."""
    p = []
    while t is not base:
        if t.op != "sel" or t.a[1][0] != ".":
            return None
        p.append(t.a[1])
        t = t.a[0]
    return tuple(reversed(p))


def at(v, path):
    for e in path:
        v = sel(v, e)
    return v


def check(c):
    c.rules.append("FitTreeToGradients with sampling, split search and partitioning abstract: the guard of an expansion must imply leaves < num_leaves, the queue's comparator must order by the "
                   "gain of the node's split, every queued node must carry the split of largest positive gain among the sampled features (or no feature), its own half of the parent's samples, and "
                   "both children are created together")
    T = TM.Tree(c)
    I, f = T.I, T.f
    if len(T.parts) != 1:
        return c.undecided("growth", T.where, "%d partition calls" % len(T.parts))
    P = T.parts[0]
    pf = next(iter(x for x in c.find("Partition") if x["params"] and x["params"][0]["t"].replace("gbdt::", "") == "const Column *"), None)
    kf, ksp, ksl = (0, 1, 2) if pf is None else (TM.pos(pf, "Column"), TM.pos(pf, "Split"), TM.pos(pf, "VectorSlice"))
    qs = {t for a in P.args for t in subterms(a) if t.op == "qtop"}
    if len(qs) != 1 or not P.loops:
        return c.undecided("growth", T.where, "the expanded item is not the top of one queue")
    q = qs.pop()
    where = loc(P)
    ld = P.loops[-1]
    idx = IN.LOOPS[ld].idx
    pF, pS = strip(P.args[kf], q), strip(P.args[ksl], q)
    sp = P.rawargs[ksp]
    r, path = I.locs(sp) if sp.op == "addr" else (None, ())
    pN = strip(r[1], q) if r and r[0] == "*" else None
    if pF is None or pS is None or pN is None:
        return c.undecided("growth", where, "items of the queue not understood: %s" % ", ".join(show(a) for a in P.args)[:300])
    c.decide(path == ((".", "split"),), "own split", "the node is partitioned by %s" % show(sp)[:200], where)
    node = at(q, pN)
    # --- leaf limit
    pushes = [e for e in I.events if e.kind == "qpush"]
    pops = [e for e in I.events if e.kind == "qpop"]
    init = [e for e in pushes if not e.loops]
    kids = [e for e in pushes if e.loops]
    queue = q.a[0]
    body = IN.LOOPS[ld].cond
    limit = sel(T.cfg, (".", "num_leaves"), "int")
    known = len(init) == 1 and len(kids) == 2 and len(pops) == 1 and all(e.loops == P.loops for e in kids + pops) and len(P.loops) == 1 \
        and all(implies(P.pc, e.pc) for e in kids + pops)
    muq = next((t for t in subterms(queue) if t.op == "mu"), None)
    leaves = add(ONE, idx)

    def cnt(t):
        if known and muq is not None and t.op == "size" and t.a[0] is muq:
            return leaves
        return None
    top, que = mk("sym", "top"), mk("sym", "queue")

    def free(g, given):
        # conditions that are not part of the given guard are arbitrary where they depend on the searches' results
        m = {}
        known = set(batoms(given))

        def f(t):
            if t in known:
                return None
            if t.op in ("loopval", "loopexit", "firstexit", "out", "fold") or (t.op == "sel" and mentions(t, lambda u: u.op in ("loopexit", "firstexit", "out", "loopval"))):
                if t not in m:
                    m[t] = mk("sym", "found", len(m))
                    if t in TYPE:
                        TYPE[m[t]] = TYPE[t]
                return m[t]
            return None
        return tobool(subst(B(flat(g)), f))

    def flat(g):
        # the queue and its top are arbitrary here
        return tobool(subst(subst(B(g), lambda t: top if t is q else None), lambda t: que if t is muq else None))
    g = tobool(subst(B(P.pc), cnt))
    if muq is not None and mentions(B(g), lambda t: t.op == "size" and t.a[0] is muq):
        c.undecided("leaf limit", where, "number of queued nodes not known")
    else:
        # domain of the limit: validated positive
        g = band(g, ilt(ZERO, limit), ile(ZERO, idx))
        for t in (limit, idx):
            TYPE[t] = "int"
        c.implies(g, ilt(leaves, limit), "leaf limit", "a node is split when the tree already has as many leaves as configured (leaves = 1 + expansions)", where, ints=[0, 1, 2, 3, 4, 5])
        # ... and growth does not stop early: with room left and a splittable best leaf the expansion happens
        have = band(ilt(leaves, limit), ilt(ZERO, limit), ile(ZERO, idx), bnot(ieq_null(P.args[kf])))
        c.implies(have, g, "growth continues", "growth stops although the tree has room for another leaf and the best leaf can be split", where, ints=[0, 1, 2, 3, 4, 5])
    # --- only splittable nodes are expanded
    c.implies(flat(P.pc), flat(bnot(ieq_null(P.args[kf]))), "splittable", "a node without a feature to split on is expanded", where)
    # --- comparator
    news = [e for e in I.events if e.kind == "qnew"]
    x, y = mk("sym", "x"), mk("sym", "y")

    def gain(z):
        d = mk("init", ("*", at(z, pN)))
        return sel(sel(d, (".", "split")), (".", "gain"), "double")
    keyf = None
    if len(news) != 1 or news[0].less is None:
        c.undecided("order", where, "ordering of the queue not known")
    else:
        less = news[0].less
        own = {strip(t, x) for t in gsub(less) if t.op == "sel"} - {None}
        own = {p for p in own if p not in (pN, pF, pS) and TYPE.get(at(x, p)) in ("double", "float")}
        if not own or len(own) > 1:
            c.same(B(less), B(flt(gain(x), gain(y))), "order", "the order in which leaves are expanded (largest split gain first)", loc(news[0]))
        else:
            keyf = own.pop()
            c.same(B(less), B(flt(at(x, keyf), at(y, keyf))), "order", "the order in which leaves are expanded", loc(news[0]))
    # --- queued items
    choice = Choice(c, T, kf)
    sides, queued = [], {}
    for e in pushes:
        n = at(e.val, pN)
        kid = None
        if e.loops:
            if n.op == "addr" and n.a[0] == ("*", node) and n.a[1] in (((".", "left_child"),), ((".", "right_child"),)):
                kid = n.a[1][0][1]
            elif n is node:
                c.viol("queued node", "the node just split is queued again instead of a child", loc(e))
                continue
            else:
                c.undecided("queued node:%d" % len(sides), loc(e), "node %s" % show(n)[:200])
                continue
            queued.setdefault(kid, []).append(e)
        name = kid or "root"
        sides.append(name)
        # samples
        want = sel(P.ret, (".", "first" if kid == "left_child" else "second")) if kid else (T.rowsubs[0].ret if len(T.rowsubs) == 1 else None)
        got = at(e.val, pS)
        if want is None:
            c.undecided("samples:" + name, loc(e), "row sample")
        elif got is not want:
            (n1, a1), (n2, a2) = T.seq(got), T.seq(want)
            k = mk("sym", "k")
            TYPE[k] = "int"
            c.same(T.cut(n1), T.cut(n2), "samples:%s:count" % name, "the number of samples queued with the %s" % name, loc(e))
            c.same(T.cut(a1(k)), T.cut(a2(k)), "samples:%s" % name, "the samples queued with the %s" % name, loc(e))
        else:
            c.ok("samples:" + name, loc(e))
        choice.check(e, name, at(e.val, pF), n, want, keyf and at(e.val, keyf))
    for kid, es in queued.items():
        c.implies(flat(P.pc), free(bor(*[e.pc for e in es]), P.pc), "queued:%s" % kid, "the %s of a split node is not queued" % kid, loc(es[0]))
    c.decide(sorted(set(sides)) == ["left_child", "right_child", "root"] or len(sides) != len(pushes), "children", "the nodes queued are %s" % sides, where)
    # --- the result is the tree grown
    root = next((at(e.val, pN) for e in init), None)
    if root is not None and root.op == "addr":
        loops_ok = I.value.op in ("loopval", "upd", "rec", "ite", "default", "pdefault") or True
        rt = [e for e in I.events if e.kind == "return" and not e.stack[1:]] if False else []
    # --- both children or none
    w = {s: [e for e in I.events if e.kind == "write" and e.path and e.path[0] == (".", s) and e.root == ("*", node)] for s in ("left_child", "right_child")}
    for s in w:
        c.decide(bool(w[s]) or not w["left_child" if s == "right_child" else "right_child"], "both children:" + s, "a node gets only one child (no %s)" % s, where)
        for e in w[s][:1]:
            c.implies(P.pc, bor(*[x.pc for x in w[s]]), "child always:" + s, "a split node does not get its %s" % s, loc(e))


def ieq_null(t):
    """Guard of pointer t being null."""
    if t.op == "ite":
        return bor(band(t.a[0], ieq_null(t.a[1])), band(bnot(t.a[0]), ieq_null(t.a[2])))
    if t.op == "null":
        return 1
    return bnot(atom(t))


class Choice:
    def __init__(self, c, T, kf):
        self.c, self.T = c, T
        f = c.fn("FindBestSplit")
        self.kfeat, self.ksl, self.kout, self.kcfg = TM.pos(f, "Column"), TM.pos(f, "VectorSlice"), TM.pos(f, "Split"), TM.pos(f, "Config")
        self.ft = [k for k, p in enumerate(T.f["params"]) if "Column" in p["t"]][0]
        self.N = 1200 if c.tier == "thorough" else 120

    def check(self, e, name, F, n, slice_, key):
        c, T, I = self.c, self.T, self.T.I
        fb = {t.a[1] for t in subterms(F) if t.op == "out" and t.a[0].endswith("FindBestSplit")}
        calls = [x for x in T.finds if x.ret.a[2] in fb]
        if not calls:
            return c.undecided("choice:" + name, loc(e), "feature %s" % show(F)[:200])
        for x in calls:
            got = x.args[self.ksl]
            if slice_ is not None and got is not slice_:
                (n1, a1), (n2, a2) = T.seq(got), T.seq(slice_)
                k = mk("sym", "k")
                TYPE[k] = "int"
                c.same(T.cut(n1), T.cut(n2), "searched:%s:count" % name, "the number of samples the %s's split is searched on" % name, loc(x))
                c.same(T.cut(a1(k)), T.cut(a2(k)), "searched:" + name, "the samples the %s's split is searched on" % name, loc(x))
            c.decide(x.args[self.kcfg] is T.cfg, "config:" + name, "the split search gets configuration %s" % show(x.args[self.kcfg])[:100], loc(x))
        root, path = (n.a[0], n.a[1]) if n.op == "addr" else (("*", n), ())
        k = I.events.index(e)
        ws = [w for w in I.events[:k] if w.kind == "write" and w.root == root and w.path == path + ((".", "split"),)]
        deep = [w for w in I.events[:k] if w.kind == "write" and w.root == root and len(w.path) > len(path) + 1 and w.path[:len(path) + 1] == path + ((".", "split"),)]
        if deep or not ws:
            return c.undecided("choice:" + name, loc(e), "the node's split is stored piecewise")
        rnd = random.Random("%s/%s" % (c.seed, name))
        done = 0
        try:
            for it in range(self.N):
                nf = rnd.choice([0, 1, 2, 3, 3, 4])
                FS = rnd.sample(range(6), nf)
                G = [Fraction(rnd.choice([0, 0, 1, 2, 3])) for _ in range(6)]
                env = EV.Env(it)

                def sem(env, key):
                    if key[0] == "ret" and str(key[1]).endswith("UniformSubsample"):
                        return [Fraction(q) for q in FS]
                    if key[0] == "sel" and key[2] == "[" and key[1] == ("init", ("arg", self.ft)):
                        return ("feat", int(key[3]))
                    if key[0] == "out" and str(key[1]).endswith("FindBestSplit"):
                        x = next((q for q in calls if q.ret.a[2] == key[2]), None)
                        if x is None:
                            if not any(q.ret.a[2] == key[2] for q in T.finds):
                                raise EV.Unknown("split of another search")
                            return {**FOREIGN}
                        sv = dict(env.dyn)
                        for l, v in zip(x.loops, key[4]):
                            env.dyn[IN.LOOPS[l].idx] = Fraction(v)
                        d = EV.ev(x.args[self.kfeat], env)
                        env.dyn = sv
                        if d[0] != "feat":
                            raise EV.Unknown("searched feature")
                        return {"gain": G[d[1]], "fid": Fraction(d[1]), "feature": ("str", ""), "has_cat_split": False, "has_float_split": True,
                                "cat_split": {"internal_categorical_index": [], "category": []},
                                "float_split": {"threshold": Fraction(0), "missing_to_right_child": False}}
                    return None
                env.sem = sem
                # loop indices of enclosing loops are immaterial
                for l in e.loops:
                    env.dyn[IN.LOOPS[l].idx] = Fraction(0)
                got = EV.ev(F, env)
                sg, sf = Fraction(0), None
                for w in ws:
                    if EV.evg(rel(w.pc, e), env, {}):
                        sg = EV.num_(EV.ev(sel(w.val, (".", "gain")), env, want="float"))
                        sf = EV.ev(sel(w.val, (".", "fid")), env, want="int") if sg > 0 else None
                best = max((G[q] for q in FS), default=Fraction(0))
                d = "sampled features %s with gains %s" % (FS, [str(G[q]) for q in FS])
                if best > 0:
                    if got == ("null",) or got[0] != "feat":
                        return c.viol("choice:" + name, "the %s stays a leaf although a feature offers gain %s (%s)" % (name, best, d), loc(e))
                    if G[got[1]] != best or got[1] not in FS:
                        return c.viol("choice:" + name, "the %s is queued with feature %d; the largest gain is %s (%s)" % (name, got[1], best, d), loc(e))
                    if sg != best or sf != got[1]:
                        return c.viol("choice:" + name, "the %s is queued with feature %d but its split has gain %s of feature %s (%s)" % (name, got[1], sg, sf, d), loc(e))
                elif got != ("null",):
                    return c.viol("choice:" + name, "the %s is queued as splittable although no feature has a positive gain (%s)" % (name, d), loc(e))
                elif sg != 0:
                    return c.viol("choice:" + name, "the %s keeps a split of gain %s without a feature (%s)" % (name, sg, d), loc(e))
                if key is not None and EV.num_(EV.ev(key, env, want="float")) != best:
                    return c.viol("key:" + name, "the %s is queued with priority %s, its split gain is %s" % (name, EV.ev(key, env), best), loc(e))
                done += 1
            c.ok("choice:" + name, loc(e), "%d interpretations" % done)
        except EV.Unknown as u:
            c.undecided("choice:" + name, loc(e), str(u))
        except (TypeError, IndexError, KeyError, RuntimeError) as u:
            c.undecided("choice:" + name, loc(e), "feature value not understood: %s" % u)


# the split of a search over other samples
FOREIGN = {"gain": Fraction(7), "fid": Fraction(99), "feature": ("str", ""), "has_cat_split": False, "has_float_split": True,
           "cat_split": {"internal_categorical_index": [], "category": []}, "float_split": {"threshold": Fraction(0), "missing_to_right_child": False}}


def rel(pc, e):
    return brestrict(pc, e.pc)
