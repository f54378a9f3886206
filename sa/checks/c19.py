"""Histograms and node totals weigh every sample exactly once."""
from ..core import *
from . import treemodel as TM


def check(c):
    c.rules.append("the totals passed to every split search must equal the weighted sums over exactly the samples passed with them (closed form over the work division); the histogram built by "
                   "Histogram's constructor is extracted as a scatter-sum over the given samples and its entry list as a filter over all codes: entry b's totals are the sums over the samples of code b, "
                   "and every code with a non-zero total is listed once, in increasing order")
    T = TM.Tree(c)
    f = c.fn("FindBestSplit")
    ks, kt, kw, kg = TM.pos(f, "VectorSlice"), TM.pos(f, "GradientData", "vector"), TM.pos(f, "function"), TM.pos(f, "vector<gbdt::GradientData")
    for n, e in enumerate(T.finds):
        sl, tot = e.args[ks], e.args[kt]
        for fld in ("g", "h"):
            c.same(T.cut(sel(tot, (".", fld))), T.cut(T.total(sl, fld)), "node total %s:%d" % (fld, n), "the node total given to the split search", loc(e), ints=TM.INTS)
        c.decide(e.args[kw] is T.w, "weights:%d" % n, "the split search is given weights %s" % show(e.args[kw])[:120], loc(e))
        g = e.args[kg]
        c.decide(g is T.gaddr or g is T.grad, "gradients:%d" % n, "the split search is given gradients %s" % show(g)[:120], loc(e))
    if not T.finds:
        c.undecided("node totals", T.where, "no split search seen")
    hist(c)


def hist(c):
    ctor = [f for f in c.db["fns"].values() if f.get("ctor") and f.get("rec") == "gbdt::Histogram" and f.get("body") is not None and len(f["params"]) >= 4]
    if not ctor:
        raise Missing("constructor of Histogram")
    f = ctor[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, mem=True, opaque={"IntegerizedColumn::col": "pure", "max_int": "pure", "IntegerCol::operator[]": "pure"})
    kf, kw, kg, ks = TM.pos(f, "Column"), TM.pos(f, "function"), TM.pos(f, "GradientData"), TM.pos(f, "VectorSlice")
    w, grad, sl = argval(f, kw), argval(f, kg), argval(f, ks)
    b = mk("sym", "code")
    TYPE[b] = "unsigned int"
    j = mk("sym", "j")
    TYPE[j] = "int"
    this = I.memval(("this",))
    # codes of rows, as the column reports them
    codes = {e.ret for e in I.events if e.kind == "call" and e.fn.endswith("IntegerCol::operator[]")}
    reads = [e for e in I.events if e.kind == "call" and e.fn.endswith("operator[]")]
    n = c.on(I, "VectorSlice", "size", sl)
    i = mk("idx", -9)
    row = I.read(c.on(I, "VectorSlice", "operator[]", sl, [i]))
    TYPE.setdefault(row, "unsigned int")
    wk = mk("icall", w, (row,))
    TYPE.setdefault(wk, "float")
    if len(codes) != 1:
        return c.undecided("histogram", where, "%d code look-ups" % len(codes))
    cr = codes.pop()
    old = cr.a[1][-1]
    code = lambda r: subst(cr, lambda t: r if t is old else None)
    mi = [e.ret for e in I.events if e.kind == "call" and e.fn.endswith("max_int")]
    if not mi or any(m is not mi[0] for m in mi):
        return c.undecided("histogram", where, "%d different code bounds" % len(set(mi)))
    mx = mi[0]

    def sums(fld, q):
        g = sel(sel(grad, ("[", row)), (".", fld), "double")
        return tsum(n, abstract(i, ite(ieq(code(row), q), mul(wk, g), ZERO)))
    entry = lambda q: [(c.on(I, "gbdt::Histogram", "size", this), None)]
    cnt = c.on(I, "gbdt::Histogram", "size", this)
    val = c.on(I, "gbdt::Histogram", "value", this, [j])
    dat = I.read(c.on(I, "gbdt::Histogram", "data", this, [j]))
    mis = I.read(c.on(I, "gbdt::Histogram", "DataOnMissing", this, []))
    hm = c.on(I, "gbdt::Histogram", "HasMissingValue", this, [])
    rnd = random.Random(c.seed)
    N = 1500 if c.tier == "thorough" else 150
    done = 0
    try:
        for it in range(N):
            M = rnd.choice([1, 2, 3, 4])
            rows = rnd.sample(range(6), rnd.choice([0, 1, 2, 3, 4]))
            cd = [rnd.randrange(M) for _ in range(6)]
            wt = [Fraction(rnd.choice([0, 1, 1, 2, 3]), 2) for _ in range(6)]
            gd = [(Fraction(rnd.randint(-2, 2)), Fraction(rnd.choice([0, 0, 1, 2]))) for _ in range(6)]
            env = EV.Env(it)
            base = 0

            def sem(env, k):
                if k[0] == "ret" and str(k[1]).endswith("max_int"):
                    return Fraction(M)
                if k[0] == "ret" and str(k[1]).endswith("operator[]"):
                    return Fraction(cd[int(k[2][-1])])
                if k[0] == "icall":
                    return wt[int(k[2][0])]
                if k[0] == "init" and k[1] == ("arg", kg):
                    return [{"g": x, "h": y} for x, y in gd]
                if k[0] == "init" and k[1] == ("arg", ks):
                    return SL
                if k[0] == "sel" and k[1] == SL:
                    return Fraction(base) if "begin" in k[2] else Fraction(base + len(rows))
                if k[0] == "sel" and k[2] == "[" and k[1][0] == "init" and k[1][1][0] == "*":
                    q = int(k[3])
                    if not 0 <= q < len(rows):
                        raise Beyond("sample %d of %d is read" % (q, len(rows)))
                    return Fraction(rows[q])
                return None
            env.sem = sem
            tot = {q: (sum((wt[r] * gd[r][0] for r in rows if cd[r] == q), Fraction(0)), sum((wt[r] * gd[r][1] for r in rows if cd[r] == q), Fraction(0))) for q in range(M)}
            desc = "samples %s of codes %s, weights %s, gradients %s" % (rows, [cd[r] for r in rows], [str(wt[r]) for r in rows], [tuple(map(str, gd[r])) for r in rows])
            k = int(EV.num_(EV.ev(cnt, env)))
            got = {}
            lst = []
            for x in range(k):
                at = lambda t: num(x) if t is j else None
                v = int(EV.num_(EV.ev(subst(val, at), env, want="int")))
                d = EV.ev(subst(dat, at), env)
                if not isinstance(d, dict) and not isinstance(d, EV.Leaf):
                    raise EV.Unknown("entry data")
                gh = tuple(EV.num_(EV.ev(sel(subst(dat, at), (".", q)), env, want="float")) for q in ("g", "h"))
                lst.append(v)
                got[v] = gh
            for q in range(M):
                if tot[q] != (0, 0) and q not in lst:
                    return c.viol("entries listed", "code %d has totals (%s, %s) but does not take part in the search: %s" % (q, tot[q][0], tot[q][1], desc), where)
                if q in got and got[q] != tot[q]:
                    return c.viol("entry totals", "code %d gets totals (%s, %s) instead of (%s, %s): %s" % (q, *got[q], *tot[q], desc), where)
            if lst != sorted(set(lst)):
                return c.viol("entries ordered", "entries are listed as %s: %s" % (lst, desc), where)
            gh = tuple(EV.num_(EV.ev(sel(mis, (".", q)), env, want="float")) for q in ("g", "h"))
            if gh != tot[0]:
                return c.viol("missing totals", "the totals on missing are (%s, %s) instead of (%s, %s): %s" % (*gh, *tot[0], desc), where)
            if EV.evg(tobool(hm), env, {}) != (tot[0] != (0, 0)):
                return c.viol("has missing", "HasMissingValue is %s although the totals on missing are (%s, %s)" % (tot[0] == (0, 0), *tot[0]), where)
            done += 1
        c.ok("histogram", where, "%d interpretations of the extracted scatter-sum" % done)
    except Beyond as u:
        c.viol("sample range", str(u), where)
    except EV.Unknown as u:
        c.undecided("histogram", where, str(u))
    c.counts["histogram_interpretations"] = done


class Beyond(Exception):
    pass


SL = EV.Leaf(("slice",))
