"""No input makes the library divide an integer by zero."""
import random
from fractions import Fraction as F

from ..core import *
from ..callgraph import recursive
from .recmodel import trace, fnname
from .c10 import Null
from .c22 import run
from .c36 import Bad
from . import colmodel
from .lossmodel import Groups


def check(c):
    c.rules.append("every integer division and remainder of the library is enumerated with its guarded path; the divisor is shown non-zero on that path from constants, from invariants of the member it reads "
                   "(all writes of the member), or by chaining constructor and operation over generated data (bucket construction, pair sampling), where element indices are also checked to be in range")
    D = Div(c)
    D.enumerate()
    D.ends()
    run(c, "buckets", "src/data_store/column.cc", lambda: buckets(c, D))
    run(c, "pairs", "src/loss_func/group.cc", lambda: pairs(c, D))
    run(c, "slices", "src/utils/subsampling.cc", lambda: slices(c, D))
    D.report()


class Div:
    def __init__(self, c):
        self.c = c
        self.N = Null(c)
        self.res = {}           # (file, line, op, divisor text) -> [verdicts]
        self.seen = {}

    def followed(self, g):
        if g.get("islambda") or g["name"].split("::")[-1] == "ThrowException":
            return True
        return g.get("body") is not None and (self.private(g) or self.N.followed(g)) and g["id"] not in self.N.rec

    def private(self, g):
        """Only called from the same class or file: analysed with its callers."""
        return bool(g.get("internal")) or g.get("acc") in ("private", "protected") and not g.get("virt")

    def enumerate(self):
        c = self.c
        self.I = {}
        for f in self.N.fs:
            self.I[f["id"]] = c.enter(f, mem=True, opaque={"!pred": lambda g: None if self.followed(g) else "effect"})
        inlined = {}
        for f in self.N.fs:
            n = 0
            for e in self.I[f["id"]].events:
                if e.kind == "idiv":
                    inlined.setdefault((e.file, e.line), set()).add(f["id"])
        for f in self.N.fs:
            for e in self.I[f["id"]].events:
                if e.kind != "idiv":
                    continue
                key = (e.file, e.line, e.op)
                # a private helper is judged where it is used
                if self.private(f) and inlined[(e.file, e.line)] - {f["id"]}:
                    continue
                self.add(key, self.judge(f, e))
        c.counts["functions_entered"] = len(self.N.fs)

    def ends(self):
        """The first or last element is only taken of containers that have one; positions are not before the start."""
        c = self.c
        n = 0
        done = set()
        for f in self.N.fs:
            for e in self.I[f["id"]].events:
                if e.kind != "index" or not isinstance(e.i, Term):
                    continue
                h = None
                if e.op in ("front", "back"):
                    k = e.size if getattr(e, "size", None) is not None else None
                    h = band(e.pc, ieq0(k)) if isinstance(k, Term) else None
                elif num_of(e.i) is None and not mentions(e.i, lambda t: t.op == "sym" and t.a[0] == "arg"):    # a caller's index is the caller's duty
                    h = band(e.pc, ilt(e.i, num(0)))
                if h is None or not h and self.private(f):
                    continue
                n += 1
                at = "src/%s:%s" % (e.file, e.line)
                key = "before-start:%s" % f["name"].split("::", 1)[-1]
                r, why = ("none", 0) if not h else EV.search(h)
                if r == "none":
                    if (key, at) not in done:
                        done.add((key, at))
                        c.ok(key, at)
                elif r == "point" and not foreign(e.i, ("mu", "muexit")):
                    c.viol(key, "%s" % ("the %s element is taken of a container that may be empty" % ("first" if e.op == "front" else "last") if e.op in ("front", "back") else
                                        "an element before the start of a container may be read, e.g. %s" % point(why)), at)
        c.counts["element_accesses"] = n

    def add(self, key, r):
        self.res.setdefault(key, []).append(r)

    # ---------------------------------------------------------------- one division
    def judge(self, f, e):
        """("ok", why) | ("bad", why) | ("?", why)"""
        if not e.pc:
            return "ok", "not reached"
        d = e.den
        k = num_of(d)
        if k is not None:
            return ("ok", "constant %s" % k) if k else self.reach(e)
        h = band(e.pc, ieq0(d))
        if not h:
            return "ok", "never zero on the path"
        zero = []
        for m in members(d):
            inv = self.invariant(f, m)
            if inv is True:
                h = band(h, bnot(ieq0(m)))
            elif inv:
                zero.append(inv)
        if not h:
            return "ok", "members never zero"
        why = EV.search(h)
        if why[0] == "none":
            return "ok", "no zero divisor found on the path"
        if why[0] == "unknown":
            return "?", str(why[1])
        # a point: is it one that can come about?
        free = foreign(d)
        if free is None or all(m is d for m in members(d)) and zero:
            return "bad", "; ".join(zero) or "e.g. %s" % point(why[1])
        return "?", free

    def reach(self, e):
        r, why = EV.search(e.pc)
        return ("bad", "the divisor is zero") if r == "point" else ("ok", "not reached") if r == "none" else ("?", str(why))

    def invariant(self, f, m):
        """True: never zero; text: where it may become zero; None: unknown."""
        cls = self.N.member(f, m)
        if not cls:
            return None
        if cls in self.seen:
            return self.seen[cls]
        self.seen[cls] = None
        out = True
        wrote = False
        for g in self.N.fs:
            I = self.I[g["id"]]
            for e in I.events:
                if e.kind == "write" and e.path and e.path[-1] == (".", cls[1]) and isinstance(e.val, Term):
                    own = g.get("rec") and e.root == ("this",) and self.N.owner(g["rec"], cls[1]) == cls
                    if e.root == ("this",) and not own and len(e.path) == 1:
                        continue
                    wrote = True
                    r, why = EV.search(band(e.pc, ieq0(e.val)))
                    if r == "point" and own:
                        out = "member %s may be set to zero at src/%s:%s" % (cls[1], e.file, e.line)
                        break
                    if r != "none":
                        out = None
            if isinstance(out, str):
                break
        if out is True:
            for g in self.N.fs:
                if g.get("ctor") and g.get("rec") == cls[0] and not (len(g["params"]) == 1 and cls[0].split("::")[-1] in g["params"][0]["t"]):
                    v = sel(self.I[g["id"]].memval(("this",)), (".", cls[1]))
                    if v.op == "sel" and v.a[0].op == "init":
                        out = None
                        break
                    r, why = EV.search(ieq0(v))
                    wrote = True
                    if r == "point":
                        out = "member %s may be zero after construction at src/%s:%s" % (cls[1], g["file"], g["l"])
                        break
                    if r != "none":
                        out = None
        if out is True and not wrote:
            out = None
        self.seen[cls] = out
        return out

    # ---------------------------------------------------------------- concrete runs
    def traced(self, evs, env, what, at):
        """Every division that happens in an interpretation has a divisor, every index is in range."""
        n = 0
        try:
            for e in trace(evs, env):
                if e.kind != "idiv":
                    continue
                d = EV.num_(EV.ev(e.den, env))
                n += 1
                if EV.isnanv(d):
                    raise EV.Unknown("divisor")
                key = (e.file, e.line, e.op)
                if d == 0:
                    self.add(key, ("bad", what))
                else:
                    self.add(key, ("seen", ""))
        except EV.Stuck as u:
            raise Bad("index:%s" % at, "%s: reads %s" % (what, u), at)
        return n

    def report(self):
        c = self.c
        n = 0
        for (file, line, op), rs in sorted(self.res.items()):
            n += 1
            at = "src/%s:%s" % (file, line)
            key = "division:%s:%s" % (file, "remainder" if op == "%" else "quotient")
            bad = [w for r, w in rs if r == "bad"]
            unk = [w for r, w in rs if r == "?"]
            if bad:
                c.viol(key, "an integer is divided by zero: %s" % bad[0][:300], at)
            elif unk and not any(r == "seen" for r, _ in rs):
                c.undecided(key, at, unk[0][:200])
            else:
                c.ok(key, at, rs[0][1])
        c.ok("integer divisions", "", "%d divisions" % n)
        c.counts["divisions"] = n


def num_of(t):
    try:
        return t.a[0] if t.op == "num" else None
    except Exception:
        return None


def ieq0(t):
    return ieq(t, num(0))


def members(d):
    """Members of an object of the caller that the divisor reads."""
    return [t for t in subterms(d) if t.op == "sel" and t.a[1][0] == "." and t.a[0].op == "init"]


def foreign(d, but=()):
    """Why an arbitrary point of the divisor need not come about, or None."""
    for t in subterms(d):
        if t.op in but:
            continue
        if t.op in ("mu", "muexit", "fold", "ret", "out"):
            return "%s in the divisor" % t.op
        if t.op == "sel" and t.a[1][0] != ".":
            return "an element of a container"
        if t.op in ("draw", "lookup", "find", "bound"):
            return t.op
    return None


def point(env):
    return ", ".join("%s = %s" % (str(k)[:60], str(v)[:40]) for k, v in list(env.leaf.items())[:4])


def buckets(c, D):
    M = colmodel.Col(c, "BucketizedFloatColumn")
    f, I, _ = M.machine("BuildBuckets")
    n = 0
    N = 400 if c.tier == "thorough" else 90
    for it in range(N):
        r = random.Random("%s/d%d" % (c.seed, it))
        nb = r.choice([-2, 0, 1, 1, 2, 3, 4, 5, 6])
        k = r.randint(0, 7)
        vals = [F(i) for i in range(k) for _ in range(r.choice([1, 1, 1, 2, 3, 6]))] + [float("nan")] * r.choice([0, 0, 1, 4])
        r.shuffle(vals)
        what = "%d buckets, values %s" % (nb, colmodel.short(vals))
        try:
            x = M.construct(n=F(nb))
            x = M.run("Add", x, vals)
            env = M.env()
            env.sem = M.semof(f, x, None)
        except EV.Stuck as u:
            raise Bad("index:Add", "%s: reads %s" % (what, u), M.where("Add"))
        n += D.traced(I.events, env, what, M.where("BuildBuckets"))
    if not n:
        raise EV.Unknown("no division in the construction of buckets")
    c.counts["bucket_divisions_interpreted"] = n
    return N


def pairs(c, D):
    G = Groups(c)
    n = 0
    for it in range(300 if c.tier == "thorough" else 60):
        r = random.Random("%s/g%d" % (c.seed, it))
        m = r.randint(2, 6)
        y = [F(r.randint(0, r.choice([1, 2, 3]))) for _ in range(m)]
        env = EV.Env(it)
        env.steps = 2 * 10 ** 5
        try:
            g = G.build(list(range(m)), y, env)
            k = G.npairs(g)
        except EV.Stuck as u:
            raise Bad("index:Group", "grouping rows with targets %s reads %s" % ([int(t) for t in y], u), G.where)
        for v in range(k):
            e2 = EV.Env(it)
            e2.steps = 10 ** 5

            def sem(env, q):
                if q == ("init", ("this",)):
                    return g
                if q[0] in ("draw", "ret") or q[0] == "sym" and q[1] != "arg":
                    return F(v)
                return None
            e2.sem = sem
            n += D.traced(G.Is.events, e2, "draw %d of a group with targets %s" % (v, [int(t) for t in y]), G.whereS)
    if not n:
        raise EV.Unknown("no division in the sampling of pairs")
    c.counts["pair_divisions_interpreted"] = n
    return n


def slices(c, D):
    """Work division for every number of items and of groups."""
    n = 0
    for f in D.N.fs:
        if not f["name"].endswith("Subsampling::DivideSamples"):
            continue
        I = D.I[f["id"]]
        at = "src/%s:%s" % (f["file"], f["l"])
        vec = [k for k, p in enumerate(f["params"]) if "VectorSlice" in p["t"] or "vector" in p["t"]]
        for items in (0, 1, 4, 7):
            for groups in (-5, -1, 0, 1, 2, 5, 8):
                env = EV.Env(0)
                env.steps = 10 ** 5

                def sem(env, q):
                    if q[0] == "sym" and q[1] == "arg" or q[0] == "init" and q[1][0] == "arg":
                        k = int(q[2] if q[0] == "sym" else q[1][1])
                        if k in vec:
                            return None
                        return F(items) if k == 0 else F(groups)
                    if q[0] == "ret" and fnname(q) == "size":
                        return F(items)
                    if q[0] == "default":
                        return colmodel.default(q[1])
                    return None
                env.sem = sem
                try:
                    n += D.traced(I.events, env, "%d items for %d groups" % (items, groups), at)
                except EV.Unknown as u:
                    c.undecided("slices:%d" % len(vec), at, str(u))
                    break
            else:
                continue
            break
    return n
