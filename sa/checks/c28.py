"""Pairwise gradients come from true pairs within one group."""
from ..core import *
from .lossmodel import *
from .c22 import run
from .c36 import Bad
from .c27 import lossval
from . import c29
from .c40 import nodes


def check(c):
    c.rules.append("the constructor of Group and SamplePair are summarised and chained: for every value the draw can take the pair is one with a strictly larger first target, and all such "
                   "pairs are reached; ComputeFunctionalGradientsAndHessians is summarised with the draw of a pair abstract (any true pair of its group) and interpreted: every pair adds its "
                   "weighted gradient to the first and subtracts it from the second row, adds equal curvature to both, and nothing is drawn from a group without pairs")
    try:
        G = Groups(c)
        run(c, "pairs", G.whereS, lambda: pairs(c, G))
        run(c, "width", G.where, lambda: widths(c, G))
        run(c, "reranked", G.where, lambda: reranked(c, G))
        S = Loss(c, "Pairwise", {"Group::SamplePair": "effect", "Group::Rerank": "effect", "Pairwise::PairWeightingFunc": "pure"},
                 lambda p, k: None)
        run(c, "gradients", S.where, lambda: gradients(c, S, G))
        run(c, "weight", "", lambda: weight(c))
    except EV.Unknown as u:
        c.undecided("pairwise", "", str(u))


def pairs(c, G):
    N = 1500 if c.tier == "thorough" else 150
    got, why, drawn = 0, None, 0
    for it in range(N):
        r = random.Random("%s/s%d" % (c.seed, it))
        n = r.randint(0, 6)
        y = [F(r.randint(0, r.choice([1, 2, 3]))) for _ in range(n + 2)]
        rows = r.sample(range(n + 2), n)
        d = "targets %s" % [int(y[x]) for x in rows]
        try:
            env = EV.Env(it)
            env.steps = 2 * 10 ** 5
            g = G.build(rows, y, env)
            order = G.rows(g)
            if sorted(order) != sorted(rows):
                raise Bad("rows", "a group of rows %s ends up with rows %s" % (sorted(rows), sorted(order)), G.where)
            want = truepairs(order, y)
            k = G.npairs(g)
            if k != len(want):
                raise Bad("count", "a group with %s counts %d pairs instead of %d" % (d, k, len(want)), G.where)
            if not k:
                got += 1
                continue
            rg = G.range(g)
            lo, hi = rg if rg else (0, 3 * k + 2)
            if rg and hi - lo > 200:
                raise EV.Unknown("range of the draw")
            seen = set()
            for v in range(lo, hi + 1):
                try:
                    p = G.sample(g, v, it)
                except EV.Stuck as u:
                    raise Bad("sample", "the draw %d of [%d, %d] reads %s (%s)" % (v, lo, hi, u, d), G.whereS)
                x, z = int(p["first"]), int(p["second"])
                if not (0 <= x < n and 0 <= z < n):
                    raise Bad("sample", "the draw %d of [%d, %d] gives the pair (%d, %d) of a group of %d rows" % (v, lo, hi, x, z, n), G.whereS)
                if (x, z) not in want:
                    raise Bad("sample", "the draw %d of [%d, %d] gives a pair with targets %s and %s (%s)" % (v, lo, hi, y[order[x]], y[order[z]], d), G.whereS)
                seen.add((x, z))
                drawn += 1
            if seen != want:
                x, z = sorted(want - seen)[0]
                raise Bad("reach", "the pair of rows with targets %s and %s can never be drawn (%s)" % (y[order[x]], y[order[z]], d), G.whereS)
        except EV.Unknown as u:
            why = u
            continue
        got += 1
    if got < N // 2:
        raise EV.Unknown(why or "no interpretation")
    c.counts["draws_interpreted"] = drawn
    return got


def narrow(t):
    return (t or "").replace("const ", "") in ("int", "unsigned int", "short", "unsigned short", "char", "unsigned char", "signed char")


def wide(t):
    return (t or "").replace("const ", "") in ("long", "unsigned long", "long long", "unsigned long long")


def constant(e):
    return not any(y.get("k") in ("var", "mem", "call", "mcall", "opcall", "icall", "index") for y in nodes(e))


def defs(f):
    """Local variable -> the expressions it is set from."""
    out = {}
    for y in nodes(f["body"]):
        if y.get("id") and isinstance(y.get("init"), dict):
            out.setdefault(y["id"], []).append(y["init"])
        if y.get("k") in ("assign", "cassign") and y.get("a") and y["a"].get("k") == "var":
            out.setdefault(y["a"]["id"], []).append(y["b"])
    return out


def product(c, e, D, d):
    """Type of a product of two varying quantities computed in 32 bits that is part of a sum of the value e, None if there is none."""
    if d > 8 or not isinstance(e, dict):
        return None
    k = e.get("k")
    if k in ("mat", "paren", "cast") and "e" in e:
        return product(c, e["e"], D, d + 1)
    if k == "bin" and e.get("op") == "*":
        if narrow(e.get("t")) and not constant(e["a"]) and not constant(e["b"]):
            return e["t"]
        return product(c, e["a"], D, d + 1) or product(c, e["b"], D, d + 1)
    if k == "bin" and e.get("op") in ("+", "-"):
        return product(c, e["a"], D, d + 1) or product(c, e["b"], D, d + 1)
    if k == "var":
        for x in D.get(e.get("id"), []):
            r = product(c, x, {i: v for i, v in D.items() if i != e["id"]}, d + 1)
            if r:
                return r
    if k in ("call", "mcall"):
        g = c.db["fns"].get(e.get("fn")) or {}
        if g.get("file", "").startswith(("loss_func/", "utils/")) and g.get("body") is not None:
            for y in nodes(g["body"]):
                if y.get("s") == "ret" and y.get("e"):
                    r = product(c, y["e"], defs(g), d + 1)
                    if r:
                        return r
    return None


def widths(c, G):
    """A group of 2^17 rows has more than 2^32 pairs: counting pairs in 32 bits loses them."""
    fs = [f for f in c.db["fns"].values() if f.get("file", "").startswith("loss_func/") and f.get("body") is not None]
    cnt = c.method(G.CLS, "num_pairs")
    if narrow(cnt.get("rt")):
        raise Bad("width", "num_pairs() returns a %s, a group of 2^17 rows has more pairs" % cnt["rt"], G.where)
    T = {y["f"] for y in nodes(cnt["body"]) if y.get("k") == "mem" and y.get("rec") == G.CLS}
    for x in (c.db["recs"].get(G.CLS) or {}).get("fields") or []:
        if x["name"] in T and narrow(x["t"]):
            raise Bad("width", "the number of pairs is kept in a %s, a group of 2^17 rows has more pairs" % x["t"], "src/%s:%s" % (G.ctor["file"], x["l"]))
    V = set()

    def tainted(e):
        k = e.get("k")
        if k == "mem" and e.get("rec") == G.CLS and e.get("f") in T:
            return True
        if k == "mcall" and e.get("fn") == cnt["id"]:
            return True
        if k == "var" and e.get("id") in V:
            return True
        if k in ("cast", "mat", "paren") and "e" in e:
            return tainted(e["e"])
        if k == "bin" and e.get("op") == "+":
            return tainted(e["a"]) or tainted(e["b"])
        if k == "bin" and e.get("op") == "-":
            return tainted(e["a"]) and constant(e["b"])
        if k == "call" and (e.get("name") or "").endswith("max"):
            return any(tainted(x) for x in e.get("args") or [])
        return False

    def strip(e):
        while e.get("k") in ("mat", "paren") or e.get("k") == "cast" and e.get("ck") in ("LValueToRValue", "NoOp"):
            e = e["e"]
        return e
    n = -1
    while n != len(V):
        n = len(V)
        for f in fs:
            for y in nodes(f["body"]):
                if y.get("k") in ("cassign", "assign") and y.get("op", "+") == "+" and y.get("a") and tainted(y.get("b") or {}):
                    a = strip(y["a"])
                    if a.get("k") == "var":
                        V.add(a["id"])
                elif y.get("id") and isinstance(y.get("init"), dict) and tainted(y["init"]):
                    V.add(y["id"])
    seen = 0
    for f in fs:
        for y in nodes(f["body"]):
            where = "src/%s:%s" % (f["file"], y.get("l"))
            if y.get("k") == "cast" and y.get("ck") == "IntegralCast" and narrow(y.get("t")) and wide(y.get("ft")) and tainted(y["e"]):
                raise Bad("width", "the number of pairs is cut to a %s, a group of 2^17 rows has more pairs" % y["t"], where)
            if y.get("k") in ("cassign", "assign") and y.get("op", "+") == "+" and y.get("a"):
                a = strip(y["a"])
                if y["k"] == "cassign" and narrow(a.get("t")) and tainted(y["b"]):
                    raise Bad("width", "pairs are summed up in a %s, a group of 2^17 rows has more pairs" % a["t"], where)
                if not tainted(a):
                    continue
                seen += 1
                m = product(c, y["b"], defs(f), 0)
                if m:
                    raise Bad("width", "the number of pairs is multiplied in a %s before it is widened, a group of 2^17 rows has more pairs" % m, where)
    c.counts["pair_count_updates"] = seen
    return seen


def reranked(c, G):
    """Re-ranking a group changes nothing but the ranks, which order the rows by score."""
    f = c.method(G.CLS, "Rerank")
    I = c.enter(f, mem=True)
    out = I.memval(("this",))
    N = 300 if c.tier == "thorough" else 60
    got, why = 0, None
    for it in range(N):
        r = random.Random("%s/r%d" % (c.seed, it))
        n = r.randint(0, 5)
        y = [F(r.randint(0, 2)) for _ in range(n)]
        sc = [F(r.randint(-3, 3)) for _ in range(n)]
        try:
            env = EV.Env(it)
            env.steps = 2 * 10 ** 5
            g = G.build(list(range(n)), y, env)
            for turn in range(2):
                env = EV.Env(it)
                env.steps = 2 * 10 ** 5

                def sem(env, k):
                    if k == ("init", ("this",)):
                        return g
                    if k[0] == "init" and (k[1] == ("arg", 0) or k[1] == EV._k(vroot(f, 0), env, {})):
                        return list(sc)
                    return None
                env.sem = sem
                h = EV.ev(out, env)
                if G.rows(h) != G.rows(g) or G.npairs(h) != G.npairs(g):
                    raise Bad("reranked:rows", "re-ranking changes the rows or pairs of a group", "src/%s:%s" % (f["file"], f["l"]))
                order = G.rows(h)
                rk = [int(G.method(h, "rank", F(i))) for i in range(n)]
                if sorted(rk) != list(range(n)) or any(sc[order[i]] > sc[order[j]] and rk[i] > rk[j] for i in range(n) for j in range(n)):
                    raise Bad("reranked:ranks", "rows with scores %s get the ranks %s" % ([int(sc[x]) for x in order], rk), "src/%s:%s" % (f["file"], f["l"]))
                g, sc = h, [F(r.randint(-3, 3)) for _ in range(n)]
        except EV.Unknown as u:
            why = u
            continue
        got += 1
    if got < N // 2:
        raise EV.Unknown(why or "no interpretation")
    return got


def gradients(c, S, G):
    N = 400 if c.tier == "thorough" else 60
    got, why = 0, None
    kcurv = set()
    gf = c29.groups_field(c, S)
    npd = 0
    for it in range(N):
        W = c29.World("%s/p%d" % (c.seed, it), group=it % 5 != 0, n=None if it % 4 == 0 else 4 + it % 3, M=1 + (it + 1) % 3)
        r = W.r
        if it % 4 in (1, 2):                # two groups that count different numbers of pairs
            W.codes = r.choice([[0, 0, 1, 1, 1], [0, 0, 0, 1, 1, 1], [0, 0, 0, 2, 2]])[:]
            W.n, W.M, W.group = len(W.codes), 3, True
            W.args.update(num_rows=F(W.n), group=("col",))
            W.Y = [F(x) for x in r.sample(range(7), W.n)]
            if W.n == 6:
                W.Y[0] = W.Y[1]             # two and three pairs
            W.W = [F(r.choice([1, 2, 3])) for _ in range(W.n)]
            W.byrow, W.text = W.codes, "group codes %s" % W.codes
        n = W.n
        equal = it % 2 == 1
        fv = [F(r.randint(-2, 2)) for _ in range(n)]
        old = [{"g": F(r.randint(5, 9)), "h": F(r.randint(5, 9))} for _ in range(r.choice([n, n, 0, n + 1]))]
        base = c29.prim(W, it)
        drawn = {}
        d = "targets %s, scores %s, weights %s, %s" % ([int(x) for x in W.Y], [int(x) for x in fv], [int(x) for x in W.W], W.text)

        def pw(i, p):
            q = random.Random("%s/%s/%s" % (it, i, p))
            return F(q.randint(1, 3))
        try:
            this, code = c29.setup(S, W, it, {"pair_sampling_rate": F(r.choice([1, 2, 4])), "equal_group_weight": equal, "rerank": it % 3 == 0})
            if code != 0:
                raise EV.Unknown("Init")
            gs = this[gf]
            rows = [G.rows(g) for g in gs]

            def gidx(a):
                """Index of the group an address or value belongs to."""
                if isinstance(a, tuple) and a and a[0] == "addr" and a[2] and a[2][-1][0] == "[":
                    return int(a[2][-1][1])
                h = EV.hk(a)
                m = [j for j, g in enumerate(gs) if EV.hk(g) == h]
                if m and (len(m) == 1 or not rows[m[0]]):
                    return m[0]
                raise EV.Unknown("group %s" % (str(a)[:60],))

            def prim(env, k, I):
                if k[0] == "out" and fnname(k) == "Rerank":
                    return gs[gidx(k[5])]       # only the ranks change
                if k[0] == "ret" and fnname(k) == "SamplePair":
                    e = event_of(I, k[3], k[1])
                    svd = dict(env.dyn)
                    for l, v in zip(e.loops, k[4]):
                        env.dyn[IN.LOOPS[l].idx] = F(v)
                    try:
                        i = gidx(EV.ev(e.this, env))
                    finally:
                        env.dyn = svd
                    tp = sorted(truepairs(rows[i], W.Y))
                    if not tp:
                        raise Bad("gradients:none", "a pair is drawn from a group that has none (%s)" % d, loc(e))
                    p = random.Random("%s/%s" % (it, k[3:])).choice(tp)
                    drawn[k[3:]] = (i, p)
                    return {"first": F(p[0]), "second": F(p[1])}
                if k[0] == "ret" and fnname(k) == "PairWeightingFunc":
                    a = k[2][-1]
                    return ("pw", gidx(a))
                if k[0] == "icall":
                    if isinstance(k[1], tuple) and k[1][0] == "pw":
                        p = dict(k[2][0]) if not isinstance(k[2][0], dict) else k[2][0]
                        return pw(k[1][1], (int(p["first"]), int(p["second"])))
                    if k[1] == ("fun", "loss"):
                        x = lossval("%s" % it, *[F(a) for a in k[2]])
                        return {str(j): v for j, v in enumerate(x)}
                return base(env, k, I)
            env = EV.Env(it)
            env.steps = 6 * 10 ** 6
            S.compute(env, this, fv, F(3), old, ("null",), prim)
            cc = EV.num_(EV.ev(S.out["c"], env, want="float"))
            gg = EV.ev(S.out["grads"], env)
        except EV.Unknown as u:
            why = u
            continue
        if cc != 0:
            raise Bad("constant", "the constant is %s" % cc, S.where)
        if not isinstance(gg, list) or any(not isinstance(x, dict) for x in gg):
            raise EV.Unknown("gradients")
        if len(gg) != n:
            raise Bad("gradients", "%d gradients are left for %d rows" % (len(gg), n), S.where)
        wg, wh = [F(0)] * n, [F(0)] * n
        for i, (p, q) in drawn.values():
            a, b = rows[i][p], rows[i][q]
            x = lossval("%s" % it, W.Y[a] - W.Y[b], fv[a] - fv[b])
            w = W.W[a] * W.W[b] * pw(i, (p, q))
            if equal:
                w /= len(truepairs(rows[i], W.Y))
            wg[a] += w * x[1]
            wg[b] -= w * x[1]
            wh[a] += w * x[2]
            wh[b] += w * x[2]
        npd += len(drawn)
        K = {F(g["g"]) / a for g, a in zip(gg, wg) if a != 0}
        okg = len(K) <= 1 and all(k > 0 for k in K) and all(F(g["g"]) == 0 for g, a in zip(gg, wg) if a == 0) and (equal or K <= {F(1)})
        if not okg:
            raise Bad("gradients", "the drawn pairs %s give the gradients %s instead of %s%s (%s)" % (
                [tuple(rows[i][t] for t in p) for i, p in drawn.values()], [str(g["g"]) for g in gg], [str(a) for a in wg], " up to a common factor" if equal else "", d), S.where)
        H = {F(g["h"]) / a for g, a in zip(gg, wh) if a != 0}
        if equal and K and H:
            H = {h / next(iter(K)) for h in H}
        okh = len(H) <= 1 and all(F(g["h"]) == 0 for g, a in zip(gg, wh) if a == 0)
        if not equal or K:
            kcurv |= H
        if not okh or len(kcurv) > 1 or any(h <= 0 for h in kcurv):
            raise Bad("curvature", "the drawn pairs %s give the curvatures %s, which are not in proportion to %s (%s)" % (
                [tuple(rows[i][t] for t in p) for i, p in drawn.values()], [str(g["h"]) for g in gg], [str(a) for a in wh], d), S.where)
        got += 1
    if got < N // 2:
        raise EV.Unknown(why or "no interpretation")
    if not npd:
        raise EV.Unknown("no pair is ever drawn")
    c.counts["pairs_interpreted"] = npd
    return got


def weight(c):
    """The pair weight is the target difference if so configured, else one."""
    from .c26 import call_method
    f = c.method("gbdt::Pairwise", "PairWeightingFunc")
    where = "src/%s:%s" % (f["file"], f["l"])
    n = 0
    ctor = [g for g in c.db["fns"].values() if g.get("ctor") and g.get("rec") == "gbdt::Pairwise" and g.get("body") is not None and not g.get("implicit") and len(g["params"]) > 1]
    if len(ctor) != 1:
        raise EV.Unknown("constructor")
    I = c.enter(ctor[0], mem=True)
    kc = next(k for k, p in enumerate(ctor[0]["params"]) if "Config" in p["t"])
    I.st.pc = 1
    groot, proot = ("arg", 97), ("arg", 98)
    I.roottype[groot] = "gbdt::Group"
    I.opaque = dict(I.opaque or {}, **{"Group::y": "pure"})
    fv = call_method(I, f, I.addr(("this",)), [I.addr(groot)])
    w = I.call_closure(fv, [("a", I.addr(proot))])
    for by in (False, True):
        for it in range(12):
            r = random.Random("%s/w%d" % (c.seed, it))
            ys = [F(r.randint(0, 5)) for _ in range(4)]
            p = r.sample(range(4), 2)
            if ys[p[0]] == ys[p[1]]:
                continue
            if ys[p[0]] < ys[p[1]]:
                p.reverse()
            env = EV.Env(it)
            env.steps = 10 ** 4

            def sem(env, k):
                if k[0] == "default" or k == ("init", ("this",)):
                    return {}
                if k == ("init", ("arg", kc)):
                    return {"pair_weight_by_delta_target": by, "pair_sampling_rate": F(1), "equal_group_weight": False}
                if k == ("init", proot):
                    return {"first": F(p[0]), "second": F(p[1])}
                if k[0] == "ret" and fnname(k) == "y":
                    return ys[int(k[2][-1])]
                return None
            env.sem = sem
            v = EV.num_(EV.ev(w, env, want="float"))
            want = ys[p[0]] - ys[p[1]] if by else 1
            if v != want:
                raise Bad("weight", "a pair with targets %s and %s has weight %s instead of %s" % (ys[p[0]], ys[p[1]], v, want), where)
            n += 1
    return n
