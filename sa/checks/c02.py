"""C02: nothing the trained model depends on is decided by schedules, clocks, addresses or earlier trainings."""
import ast, os
from ..core import *
from ..callgraph import callees
from .footmodel import *
from ..terms import batoms, band, bnot

CLOCKS = {"time", "clock", "gettimeofday", "clock_gettime", "times", "getpid", "gettid", "getppid", "pthread_self", "std::this_thread::get_id",
          "std::thread::hardware_concurrency", "localtime", "gmtime", "std::thread::get_id", "rdtsc", "__rdtsc"}
HIDDEN = {"rand", "random", "drand48", "erand48", "lrand48", "nrand48", "mrand48", "rand_r", "std::rand", "std::random_shuffle", "arc4random", "getrandom", "getentropy"}
STATEFUL = ("normal_distribution", "gamma_distribution", "lognormal_distribution", "student_t_distribution", "poisson_distribution", "binomial_distribution",
            "negative_binomial_distribution", "chi_squared_distribution", "cauchy_distribution_")
ASSOC = ("unordered_map", "unordered_set", "map", "set", "unordered_multimap", "unordered_multiset", "multimap", "multiset")


def clock(n):
    n = n or ""
    return n in CLOCKS or n.startswith("std::chrono::") and n.endswith("_clock::now") or n.startswith("std::random_device")


def nodes(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            yield y
            todo += list(y.values())
        elif isinstance(y, list):
            todo += y


class Det:
    def __init__(self, c):
        self.c, self.db = c, c.db
        self.F = Foot(c)
        self.over = {}
        for i, f in self.db["fns"].items():
            for o in f.get("over") or []:
                self.over.setdefault(o, set()).add(i)
        self.entries = [f for f in c.find("TrainPy") + c.find("Train", where=lambda f: f["file"] == "main.cc", opt=True)]
        self.core = c.find("TrainGBDT")
        self.R = self.reach([f["id"] for f in self.core + self.entries])
        self.fs = [self.db["fns"][i] for i in sorted(self.R) if self.lib(self.db["fns"][i])]
        self.tfields, self.tfns = set(), {}
        self.top = {f["id"] for f in self.core + self.entries}
        self.dead = {}

    def lib(self, f):
        return f.get("body") is not None and not f.get("islambda") and not (f.get("rec") or "").endswith("ThreadPool") and not f["file"].startswith("external")

    def reach(self, ids):
        seen, todo = set(ids), list(ids)
        while todo:
            f = self.db["fns"].get(todo.pop())
            if f is None:
                continue
            for y in callees(f):
                for z in [y] + sorted(self.over.get(y, ())):
                    if z not in seen:
                        seen.add(z)
                        todo.append(z)
        return {x for x in seen if x in self.db["fns"]}

    def enter(self, f):
        return self.F.enter(f)

    # ------------------------------------------------------------------ values that differ between runs
    def tainted(self, t):
        if not isinstance(t, Term):
            return None
        for x in subterms(t):
            if x.op == "ret":
                if clock(str(x.a[0])):
                    return str(x.a[0])
                if str(x.a[0]) in self.tfns:
                    return self.tfns[str(x.a[0])] if isinstance(self.tfns, dict) else str(x.a[0])
            elif x.op == "draw":
                if "random_device" in str(x.a[0]) or "random_device" in str(TYPE.get(x.a[0], "")):
                    return "std::random_device"
            elif x.op == "init" and len(x.a) and isinstance(x.a[0], tuple):
                p = x.a[1] if len(x.a) > 1 else ()
                for s in p if isinstance(p, tuple) else ():
                    if isinstance(s, tuple) and s[0] == "." and s[1] in self.tfields and "chrono" in str(TYPE.get(x, "")):
                        return "time point %s" % s[1]
            elif x.op == "sel" and isinstance(x.a[1], tuple) and len(x.a[1]) > 1 and x.a[1][1] in self.tfields and "chrono" in str(TYPE.get(x, "")):
                return "time point %s" % x.a[1][1]
        return None

    def text(self, t):
        if t.op == "ite":
            return all(self.text(x) for x in t.a[1:3])
        if t.op in ("fmt", "cat", "str", "undef"):
            return True
        ty = canon(str(TYPE.get(t, "")))
        if t.op == "ret":
            f = [g for g in self.db["fns"].values() if g["name"].endswith(str(t.a[0]))]
            ty = ty or (canon(f[0].get("rt") or "") if f else "")
        return ty.startswith(("basic_string", "string", "char"))

    def timed(self, t):
        """Objects of the clock's own types."""
        ty = str(TYPE.get(t, ""))
        return t.op == "ctor" and "chrono" in str(t.a[0]) or t.op == "ret" and "chrono" in str(t.a[0]) and "count" not in str(t.a[0]) or "chrono" in ty

    def taint(self):
        """Members that hold time points and functions whose results differ between runs."""
        self.tfns = {}
        fs = [f for f in self.db["fns"].values() if self.lib(f) and not (f.get("rec") or "").startswith("std::")]
        hot = set()
        for f in fs:
            if any(clock(y.get("name") or "") or y.get("k") in ("call", "mcall") and "random_device" in str(y.get("rec") or y.get("name")) for y in nodes([f.get("body"), f.get("inits")])):
                hot.add(f["id"])
        if not hot:
            return
        changed = True
        done = set()
        while changed:
            changed = False
            for f in fs:
                touched = f["id"] in hot or bool(callees(f) & hot) or any(y.get("k") == "mem" and y.get("f") in self.tfields for y in nodes(f.get("body")))
                if not touched:
                    continue
                try:
                    I = self.enter(f)
                except Exception as u:
                    self.dead[f["id"]] = str(u)
                    continue
                for e in I.events:
                    if e.kind == "write" and e.root[0] in ("this", "arg", "*", "g") and isinstance(e.val, Term) and self.tainted(e.val) and self.timed(e.val):
                        n = [p[1] for p in e.path if p[0] == "."]
                        if n and n[-1] not in self.tfields:
                            self.tfields.add(n[-1])
                            changed = True
                    if e.kind == "return" and isinstance(e.val, Term) and e.depth == 2 and f["id"] not in self.top:
                        w = self.tainted(e.val) or (self.filled(I, e.val) if f["id"] in hot else None)
                        n = f["name"].replace("gbdt::", "")
                        if w and n not in self.tfns:
                            self.tfns[n] = w
                            self.tfns[f["name"]] = w
                            hot.add(f["id"])
                            changed = True

    def filled(self, I, v):
        """Value of a buffer an outside function filled from the time."""
        if any(x.op == "undef" for x in subterms(v)):
            for e in I.events:
                if e.kind == "call" and (clock(e.fn) or any(self.tainted(a) for a in e.args)):
                    return str(e.fn)
        return None

    # ------------------------------------------------------------------ generators
    def gen(self, f, I, g):
        """('shared', name) | ('param', k) | ('local', root, path) | ('member', path)"""
        if not isinstance(g, Term):
            return ("?", str(g))
        if g.op == "addr":
            r, p = g.a[0], g.a[1]
            if r[0] == "g":
                return ("shared", r[1])
            if r[0] == "arg":
                return ("param", r[1])
            if r[0] in ("v", "tmp", "heap", "new"):
                return ("local", r, p)
            if r == ("this",):
                return ("member", p)
            if r[0] == "*" and isinstance(r[1], Term) and r[1].op == "sym" and r[1].a[0] == "arg":
                return ("param", r[1].a[1])
        if g.op == "sym" and g.a[0] == "arg":
            return ("param", g.a[1])
        return ("?", str(g)[:60])

    def seeds(self, I, root, path):
        fl = tuple(p for p in path if p[0] == ".")
        out = []
        for e in I.events:
            if e.kind == "write" and e.root == root and isinstance(e.val, Term) and tuple(p for p in e.path if p[0] == ".")[:len(fl)] == fl:
                for x in subterms(e.val):
                    if x.op == "rng":
                        out.append((x, e))
        return out


def check(c):
    c.rules.append("source-to-sink analysis over every function training can reach: generators (identity, seed, who draws), clocks/thread ids/random devices (taint), addresses "
                   "(pointer-keyed iteration, pointer comparisons, pointers as numbers), completion order (locked read-modify-writes of concurrent tasks), state kept between trainings")
    D = Det(c)
    D.taint()
    c.counts["functions_reached"] = len(D.fs)
    c.counts["clock_functions"] = len(D.tfns)
    shared = generators(c, D)
    seeding(c, D, shared)
    clocks(c, D)
    hidden(c, D)
    addresses(c, D)
    completion(c, D)
    history(c, D, shared)
    python(c)


def seedw(e):
    """A write that gives a global generator a new state from a seed."""
    return e.kind == "write" and e.root[0] == "g" and isinstance(e.val, Term) and e.val.op == "rng"


def at(e):
    return "src/%s:%s" % (e.file, e.line)


def generators(c, D):
    """Every draw comes from the seeded generator, outside tasks, or from one seeded from it."""
    shared, draws = {}, []
    params = {}     # fid -> set of parameter numbers that are drawn from
    for f in D.fs:
        I = D.enter(f)
        for e in I.events:
            if e.kind == "draw":
                draws.append((f, I, e, D.gen(f, I, e.gen)))
    # the shared generator: the one Reseed seeds
    for f in D.fs:
        for e in D.enter(f).events:
            if seedw(e):
                shared.setdefault(e.root[1], []).append((f, e))
    n = 0
    for f, I, e, k in draws:
        n += decide(c, D, f, I, e, k, shared, params, f["name"], set())
    todo = True
    seen = set()
    while todo:
        todo = False
        for f in D.fs:
            I = D.enter(f)
            for e in I.events:
                if e.kind != "call" or not e.fid:
                    continue
                for t in targets(D, e.fid):
                    for k in sorted(params.get(t, ())):
                        key = (f["id"], e.line, e.fid, k, id(e))
                        if key in seen:
                            continue
                        seen.add(key)
                        todo = True
                        a = e.rawargs[k] if k < len(e.rawargs) else None
                        n += decide(c, D, f, I, e, D.gen(f, I, a), shared, params, e.fn, set())
    # functions that draw from the shared generator must not run inside tasks
    direct = {f["id"] for f, I, e, k in draws if k[0] == "shared"}
    hot = set(direct)
    grown = True
    while grown:
        grown = False
        for f in D.fs:
            if f["id"] in hot:
                continue
            if any(e.kind == "call" and e.fid and any(t in hot for t in targets(D, e.fid)) for e in D.enter(f).events):
                hot.add(f["id"])
                grown = True
    for f in D.fs:
        for e in D.enter(f).events:
            if e.tasks and e.kind == "call" and e.fid and any(t in hot for t in targets(D, e.fid)):
                c.viol("task-draw:%s:%s" % (f["name"], e.fn), "%s: a task calls %s, which draws from the shared generator: the draws depend on the schedule" % (f["name"], e.fn), at(e))
    c.counts["draws"] = n
    if not n:
        c.undecided("draws", "", "training draws no random number")
    return shared


def targets(D, fid):
    out, todo = {fid}, [fid]
    while todo:
        for y in D.over.get(todo.pop(), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def decide(c, D, f, I, e, k, shared, params, what, chain):
    name = "draw:%s:%s" % (f["name"].replace("gbdt::", ""), what.replace("gbdt::", ""))
    if k[0] == "shared":
        if e.tasks and e.kind == "draw":
            c.viol("task-draw:" + f["name"], "%s: a task draws from the shared generator %s: the draws depend on the schedule" % (f["name"], k[1]), at(e))
        elif e.tasks:
            c.viol("task-draw:%s:%s" % (f["name"], what), "%s: a task draws from the shared generator %s through %s: the draws depend on the schedule" % (f["name"], k[1], what), at(e))
        elif k[1] not in shared:
            c.viol("unseeded:" + str(k[1]), "%s draws from %s, which is never seeded with the user's seed" % (f["name"], k[1]), at(e))
        else:
            c.ok(name, at(e))
        return 1
    if k[0] == "param":
        params.setdefault(f["id"], set()).add(k[1])
        return 0
    if k[0] in ("local", "member"):
        if k[0] == "local":
            ss = [(x, w, I) for x, w in D.seeds(I, k[1], k[2])]
            g_ = f
        else:
            ss = []
            for g in D.fs:
                if g.get("rec") == f.get("rec"):
                    g_ = g
                    J = D.enter(g)
                    ss += [(x, w, J) for x, w in D.seeds(J, ("this",), k[1])]
        if any(w.how == "seed" for x, w, J in ss):
            ss = [(x, w, J) for x, w, J in ss if w.how == "seed" or x.a[0]]
        if "random_device" in str(TYPE.get(getattr(e, "gen", None), "")) or not ss and "random_device" in str(getattr(e, "dist", "")):
            return 0
        if not ss:
            c.undecided(name, at(e), "seed of the generator")
            return 1
        bad = und = None
        for x, w, J in ss:
            r = seed_ok(D, x, shared, g_ if k[0] == "member" else f)
            if r is False:
                bad = (x, w)
            elif r is None:
                und = x
        if bad:
            x, w = bad
            c.viol("own-seed:" + f["name"], "%s draws from a generator of its own seeded with %s: not derived from the user's seed" % (
                f["name"], str(x.a[0][0])[:60] if x.a[0] else "the default seed"), at(w))
        elif und is not None:
            c.undecided(name, at(e), "seed %s" % str(und)[:80])
        else:
            c.ok(name, at(e))
        return 1
    c.undecided(name, at(e), "generator %s" % (k[1],))
    return 1


def seed_ok(D, rng, shared, f, depth=0):
    """True: derived from the user's seed; False: certainly not; None: unknown."""
    if not rng.a[0]:
        return False
    rs = [derived_seed(D, t, f, 0) for t in rng.a[0]]
    return True if True in rs else None if None in rs else False


def derived_seed(D, t, f, depth):
    if not isinstance(t, Term):
        return None
    if D.tainted(t):
        return False
    und = False
    for x in subterms(t):
        if x.op == "draw":
            return True
        if x.op == "ret" or x.op == "icall":
            und = True
        if x.op in ("sym", "init", "sel") and "seed" in str(x).lower():
            und = True
        if x.op == "sym" and x.a[0] == "arg":
            n = (f["params"][x.a[1]].get("name") or "") if x.a[1] < len(f["params"]) else ""
            if "seed" in n.lower() and f["id"] in D.top:
                return True
            r = from_callers(D, f, x.a[1], depth)
            if r:
                return True
            und = und or r is None
    return None if und else False


def from_callers(D, f, k, depth):
    if depth > 3 or f["id"] in D.top:
        return None if depth > 3 else False
    out, n = False, 0
    for g in D.fs:
        for e in D.enter(g).events:
            if e.kind == "call" and e.fid and f["id"] in targets(D, e.fid):
                n += 1
                r = derived_seed(D, e.args[k] if k < len(e.args) else None, g, depth + 1)
                if r:
                    return True
                out = None if r is None else out
    return out if n else None


def seeding(c, D, shared):
    """Before each training the shared generator is seeded with the user's seed."""
    core = {f["id"] for f in D.core}
    inside = D.reach(core)
    for n, l in sorted(shared.items()):
        for f, e in l:
            if f["id"] in inside and f["id"] not in {x["id"] for x in D.entries}:
                c.viol("reseed:" + f["name"], "%s seeds the shared generator again during training: the draws no longer follow from the user's seed and the draws before" % f["name"], at(e))
    used = {k for k in shared}
    for f in D.entries:
        I = D.enter(f)
        where = "src/%s:%s" % (f["file"], f["l"])
        trains = [(i, e) for i, e in enumerate(I.events) if e.kind == "call" and e.fid and (e.fid in core or trained(D, e.fid, core))]
        if not trains:
            c.undecided("seeding:" + f["name"], where, "no call of the training found")
            continue
        for i, e in trains:
            ss = [s for s in I.events[:i] if seedw(s)]
            key = "seeding:%s" % f["name"].replace("gbdt::", "")
            if not ss:
                c.viol("unseeded-training:" + f["name"], "%s trains without seeding the shared generator first: the model depends on what ran before" % f["name"], at(e))
                continue
            g = e.pc
            for s in ss:
                g = band(g, bnot(s.pc))
            if g != 0:
                r = EV.search(g)
                if r[0] == "point":
                    c.viol("unseeded-training:" + f["name"], "%s trains without seeding the shared generator on some path (e.g. %s)" % (f["name"], cond(g)), at(e))
                else:
                    c.undecided(key, at(e), "is the generator seeded on every path: %s" % (r[1],))
                continue
            bad = None
            for s in ss:
                if user_seed(D, f, s.val) is False:
                    bad = (s, s)
            between = [x for x in I.events[I.events.index(ss[-1]) + 1:i] if x.kind == "draw"]
            if bad:
                c.viol("wrong-seed:" + f["name"], "%s seeds the shared generator with %s, not with the user's seed" % (f["name"], str(bad[1].val.a[0][0] if bad[1].val.a and bad[1].val.a[0] else "the default")[:80]), at(bad[0]))
            else:
                c.ok(key, at(e), "%d draws between seeding and training" % len(between))


def cond(g):
    return " and ".join(str(x)[:40] for x in batoms(g)[:3])


def trained(D, fid, core):
    return False


def user_seed(D, f, v):
    a = v.a[0] if v.op == "rng" else ()
    if not a or not isinstance(a[0], Term):
        return False
    if D.tainted(a[0]):
        return False
    s = [x for x in subterms(a[0]) if x.op in ("sym", "init", "draw", "ret") and "default_seed" not in str(x)]
    if not s:
        return False
    for x in s:
        if x.op == "draw":
            return False
        if "seed" in str(x).lower():
            return True
        if x.op == "sym" and x.a[0] == "arg":
            if x.a[1] < len(f["params"]) and "seed" in (f["params"][x.a[1]].get("name") or "").lower():
                return True
            r = [k for k, p in enumerate(f["params"]) if "seed" in (p.get("name") or "").lower()]
            if r and x.a[1] not in r:
                return False
    return None


def clocks(c, D):
    """Values that differ between runs only reach logs and recorded text."""
    n = 0
    for f in D.fs:
        I = D.enter(f)
        name = f["name"].replace("gbdt::", "")
        bad = False
        mine = 0
        for e in I.events:
            if e.kind in ("write", "return", "call", "draw", "seed", "throw", "enqueue"):
                g = [w for w in (D.tainted(x) for x in batoms(e.pc)) if w]
                if e.kind == "write" and e.root[0] in ("v", "tmp"):
                    g = []
                if g and not (e.kind == "return" and name in D.tfns or e.kind == "return" and canon(f.get("rt") or "") in ("string",)) and not (e.kind == "call" and (clock(e.fn) or e.mode in ("pure", "lib"))):
                    if e.kind == "return" and (f.get("rt") == "void" and e.depth != 2):
                        continue
                    if f["name"] in D.tfns:
                        continue
                    if harmless(D, e):
                        continue
                    bad = True
                    c.viol("clock-decides:" + name, "%s: what happens here depends on %s, which differs between runs" % (f["name"], g[0]), at(e))
                    break
            if e.kind == "write" and e.root[0] not in ("v", "tmp", "heap") and isinstance(e.val, Term):
                w = D.tainted(e.val)
                if w:
                    mine += 1
                    fl = [p[1] for p in e.path if p[0] == "."]
                    if fl and fl[-1] in D.tfields or D.timed(e.val) or D.text(e.val):
                        continue
                    bad = True
                    c.viol("clock-value:" + name, "%s stores a number derived from %s, which differs between runs" % (f["name"], w), at(e))
            if e.kind == "write" and isinstance(e.val, Term) and e.how == "seed" or e.kind == "write" and isinstance(e.val, Term) and e.val.op == "rng":
                w = D.tainted(e.val)
                if w:
                    bad = True
                    c.viol("clock-seed:" + name, "%s seeds a generator from %s, which differs between runs" % (f["name"], w), at(e))
            if e.kind == "call" and e.mode not in ("pure", "lib", "purev") and e.fid in D.db["fns"] and f["name"] not in D.tfns:
                g = D.db["fns"][e.fid]
                x = D.F.fp(e.fid)
                if x is not None and not any(rw == "w" for b, fl, rw, lk, w in x):
                    continue        # only computes; its result is followed
                for a in e.args:
                    w = D.tainted(a) if isinstance(a, Term) else None
                    if w and not D.text(a) and not (g.get("rec") or "").endswith("StopWatch") and not timeobj(D, a):
                        bad = True
                        c.viol("clock-value:" + name, "%s passes a number derived from %s, which differs between runs, to %s" % (f["name"], w, e.fn), at(e))
            if e.kind == "draw" and ("random_device" in str(TYPE.get(e.val, "")) or "random_device" in str(getattr(e, "dist", "")) or "random_device" in str(TYPE.get(getattr(e, "gen", None), ""))):
                pass
        for l in sorted({l for e in I.events for l in e.loops}):
            L_ = IN.LOOPS[l]
            for g in (L_.early, L_.cond, L_.bound, L_.hi):
                for x in ([y for y in batoms(g)] if isinstance(g, int) and not isinstance(g, bool) else [g] if isinstance(g, Term) else []):
                    w = D.tainted(x)
                    if w and not bad and f["name"] not in D.tfns:
                        bad = True
                        e = [e for e in I.events if l in e.loops][0]
                        c.viol("clock-decides:" + name, "%s: how often the loop here runs depends on %s, which differs between runs" % (f["name"], w), at(e))
        if mine and not bad:
            c.ok("clock:" + name, "src/%s:%s" % (f["file"], f["l"]))
        n += mine
    c.counts["clock_values_followed"] = n


def timeobj(D, a):
    return D.timed(a)


def harmless(D, e):
    """Effects that only concern logging or time keeping."""
    if e.kind == "write":
        fl = [p[1] for p in e.path if p[0] == "."]
        return bool(fl and fl[-1] in D.tfields) or isinstance(e.val, Term) and D.text(e.val)
    if e.kind == "call":
        f = D.db["fns"].get(e.fid)
        return f is not None and (f.get("rec") or "").endswith("StopWatch") or e.fn.replace("gbdt::", "") in D.tfns
    return False


def hidden(c, D):
    """Sources of randomness the user's seed does not control, clocks used outside the interpreted functions."""
    n = 0
    for i in sorted(D.R):
        f = D.db["fns"][i]
        if f.get("body") is None or f["file"].startswith("external"):
            continue
        for y in nodes([f.get("body"), f.get("inits")]):
            n += 1
            nm = y.get("name") or ""
            if y.get("k") in ("call", "mcall", "ctor") and nm in HIDDEN:
                c.viol("hidden-source:%s:%s" % (f["name"], nm), "%s draws from %s, which the user's seed does not control" % (f["name"], nm), "src/%s:%s" % (f["file"], y.get("l")))
            if y.get("k") in ("call", "mcall", "ctor") and str(y.get("rec") or "").endswith("random_device") and y.get("k") != "ctor":
                c.viol("hidden-source:%s:random_device" % f["name"], "%s draws from std::random_device, which the user's seed does not control" % f["name"], "src/%s:%s" % (f["file"], y.get("l")))
    c.ok("sources", "", "%d expressions" % n)
    c.counts["expressions"] = n


def isptr(t):
    t = canon(t or "")
    return t.endswith("*") or t.endswith("*const") or t.startswith(("unique_ptr<", "shared_ptr<"))


def addresses(c, D):
    """No order or value derived from memory addresses."""
    n = 0
    for i in sorted(D.R):
        f = D.db["fns"][i]
        if f.get("body") is None or f["file"].startswith("external"):
            continue
        for y in nodes([f.get("body"), f.get("inits")]):
            w = "src/%s:%s" % (f["file"], y.get("l"))
            t = None
            if y.get("s") in ("rfor", "forrange", "range") or "range" in y:
                t = (y.get("range") or {}).get("t") if isinstance(y.get("range"), dict) else None
            if y.get("k") == "mcall" and (y.get("name") or "").split("::")[-1] in ("begin", "cbegin") and isinstance(y.get("obj"), dict):
                t = y["obj"].get("t")
            if t:
                nm, a = targs(canon(t))
                if nm.split("::")[-1] in ASSOC and a:
                    n += 1
                    if isptr(a[0]):
                        c.viol("address-order:" + f["name"], "%s goes through a %s keyed by pointers: the order follows memory addresses" % (f["name"], nm.split("::")[-1]), w)
            if y.get("k") == "cast" and y.get("ck") == "PointerToIntegral":
                n += 1
                if "bool" not in (y.get("t") or ""):
                    c.viol("address-value:" + f["name"], "%s uses a memory address as a number" % f["name"], w)
            if y.get("k") in ("call", "mcall") and "hash<" in str(y.get("orec") or y.get("name") or "") and any(isptr(x) for x in y.get("pt") or []):
                c.viol("address-value:" + f["name"], "%s hashes a memory address" % f["name"], w)
        if f.get("islambda") and len(f.get("params") or []) == 2:
            ps = {p["id"] for p in f["params"] if p.get("id") and isptr(p["t"])}
            for y in nodes(f["body"]):
                if y.get("k") == "bin" and y.get("op") in ("<", ">", "<=", ">="):
                    l, r = bare(y.get("l_") or y.get("lhs") or y.get("a")), bare(y.get("r_") or y.get("rhs") or y.get("b"))
                    if l and r and l in ps and r in ps:
                        c.viol("address-order:" + f["name"], "%s orders elements by memory address" % f["name"], "src/%s:%s" % (f["file"], y.get("l")))
    c.ok("addresses", "", "%d containers and casts" % n)


def bare(x):
    while isinstance(x, dict) and x.get("k") in ("cast", "mat", "paren"):
        x = x["e"]
    return x.get("id") if isinstance(x, dict) and x.get("k") == "var" else None


def completion(c, D):
    """What concurrent tasks update under a common lock does not depend on their order."""
    n = 0
    for f in D.F.entry:
        if f["id"] not in D.R:
            continue
        where = "src/%s:%s" % (f["file"], f["l"])
        name = f["name"].replace("gbdt::", "")
        bad = False
        try:
            for R in worlds(c, D.F, f):
                n += len(R.tasks)
                for i, b, j, a in R.ordered:
                    r = order_dependent(D, R, a)
                    if r:
                        bad = True
                        c.viol("completion-order:%s:%s" % (name, pname(D.F, a.root, tuple(p for p in a.path if p[0] == "."))),
                               "%s: tasks %s %s in the order in which they get the lock" % (name, r, pname(D.F, a.root, tuple(p for p in a.path if p[0] == "."))), a.at)
        except (EV.Unknown, EV.Stuck) as u:
            c.undecided("completion:" + name, where, str(u))
            continue
        for e, r, what in locked_updates(D, f):
            bad = True
            c.viol("completion-order:%s:%s" % (name, what), "%s: tasks %s %s in the order in which they get the lock" % (name, r, what), at(e))
        if not bad:
            c.ok("completion:" + name, where)
    # updates of atomics are sequenced by the schedule
    for i in sorted(D.R):
        f = D.db["fns"][i]
        if f.get("body") is None or f["file"].startswith("external"):
            continue
        for y in nodes(f["body"]):
            if y.get("k") in ("mcall", "call") and str(y.get("rec") or "").startswith("std::atomic") and not (y.get("name") or "").endswith(("atomic", "load")):
                t = canon(str(y.get("orec") or "") + str((y.get("obj") or {}).get("t") or ""))
                if "double" in t or "float" in t:
                    c.viol("completion-order:atomic:" + f["name"], "%s accumulates floating-point values in an atomic in the order in which tasks get to it" % f["name"], "src/%s:%s" % (f["file"], y.get("l")))
                elif (y.get("name") or "").split("::")[-1] in ("fetch_add", "operator++", "fetch_sub", "exchange") and used(f, y):
                    c.viol("completion-order:atomic:" + f["name"], "%s hands out values of an atomic counter in the order in which tasks get to it" % f["name"], "src/%s:%s" % (f["file"], y.get("l")))
    c.counts["tasks_traced"] = n


def locked_updates(D, f):
    """Writes of a task, under a lock, to a place all tasks of the loop share."""
    I = D.enter(f)
    enq = {e.no: e for e in I.events if e.kind == "enqueue"}
    out = []
    for e in I.events:
        if e.kind != "write" or not e.tasks or not e.locks:
            continue
        no, pool, loops = e.tasks[0]
        q = enq.get(no)
        if q is None or not loops:
            continue
        if e.root[0] == "v" and isinstance(e.root[-1], int) and e.root[-1] > q.frame or e.root[0] in ("tmp", "heap", "new"):
            continue
        idx = {IN.LOOPS[l].idx for l in loops}
        own = False
        for p in list(e.path) + [e.root]:
            for x in p if isinstance(p, tuple) else ():
                if isinstance(x, Term) and (x in idx or subterms(x) & idx):
                    own = True
        if own or e.root[0] == "g" and "generator" in str(e.root):
            continue
        if any(p[0] in ("[", "{", "#") and isinstance(p[1], Term) for p in e.path if len(p) > 1):
            continue        # an element chosen by key
        a = Access(e.root, tuple(p for p in e.path), True, frozenset(), at(e), None)
        a.ev = e
        r = order_dependent(D, None, a)
        if r:
            out.append((e, r, str(e.root[1] if e.root[0] in ("v", "g") else e.root[0]).split("@")[0] + "".join("." + p[1] for p in e.path if p[0] == ".")))
    return out


def used(f, y):
    """Is the result of expression y used?"""
    for z in nodes(f["body"]):
        if z.get("s") == "expr" and z.get("e") is y:
            return False
    return True


def order_dependent(D, R, a):
    e = a.ev
    if e is None or a.what:
        return None
    if any(p[0] == "#" for p in a.path):
        return "append to"
    if not isinstance(getattr(e, "val", None), Term):
        return None
    if any(p[0] == "[" for p in a.path) and keyed(D, R, a):
        return None
    v = e.val
    if e.how == "call":
        return "append to" if v.op == "out" and str(v.a[0]).split("::")[-1] in ("push_back", "emplace_back", "append", "push", "operator+=") else None
    s = subterms(v)
    if all(x.op in ("num", "str", "null", "unit", "b") for x in s) and not (v.op == "b" and v.a[0] not in (0, 1)):
        return None     # every task stores the same constant
    ty = canon(str(TYPE.get(v, "")))
    if counts(D, e):
        return None
    if ty in INTS and (v.op in ("poly", "add") or e.how in ("+=", "++", "-=", "--", "|=", "&=")):
        return None
    if e.how in ("+=", "-=", "*="):
        return None if ty in INTS else "accumulate floating-point values into"
    if e.pc != 1:
        return "overwrite"
    return "overwrite"


def counts(D, e):
    """Is the write an integer count or sum (the order of the additions does not matter)?"""
    hit = False
    for g in D.db["fns"].values():
        if g.get("file") != e.file or g.get("body") is None or not g["l"] <= e.line <= g.get("le", 10 ** 9):
            continue
        for y in nodes(g["body"]):
            if y.get("l") != e.line:
                continue
            if y.get("k") == "assign":
                return False
            if y.get("k") == "un" and y.get("op") in ("++", "--") or y.get("k") == "cassign" and y.get("op") in ("+", "-", "+=", "-=", "|=", "&=", "^=", "|", "&", "^"):
                t = (y.get("e") or y.get("a") or {}).get("t")
                if canon(t or "") not in INTS | {"bool"}:
                    return False
                hit = True
    return hit


def keyed(D, R, a):
    return not all(isinstance(p[1], (int, F)) for p in a.path if p[0] == "[")


def history(c, D, shared):
    """Nothing kept between trainings influences the next one."""
    core = D.reach([f["id"] for f in D.core])
    w = {}
    for f in D.fs:
        for e in D.enter(f).events:
            if e.kind == "write" and e.root[0] in ("g", "static") and e.how not in ("draw", "seed") and not seedw(e):
                if e.root[1] in shared or e.how == "init":
                    continue
                w.setdefault(e.root[1], []).append((f, e))
    ents = {x["id"] for x in D.entries}
    for g, l in sorted(w.items(), key=str):
        inside = [(f, e) for f, e in l if f["id"] in core]
        if not inside:
            # set by the entry before training, unconditionally or not at all
            for f, e in l:
                if f["id"] in ents and e.pc != 1 and not any(x.pc == 1 for y, x in l if y is f):
                    c.viol("kept:" + str(g), "%s sets %s only on some paths: what an earlier training set stays in force" % (f["name"], g), at(e))
                else:
                    c.ok("kept:%s:%s" % (g, f["name"]), at(e))
            continue
        r = [(f, e) for f in D.fs if f["id"] in core for e in D.enter(f).events if reads(e, g)]
        r += [(f, e) for f, e in inside if isinstance(e.val, Term) and any(x.op == "init" and x.a[0] == ("g", g) for x in subterms(e.val))]
        if r and not all(isinstance(e.val, Term) and not free(e.val) for f, e in inside):
            f, e = inside[0]
            c.viol("kept:" + str(g), "%s changes %s, which keeps its value after the training and is used in the next one" % (f["name"], g), at(e))
    for gname, g in sorted(D.db["globals"].items()):
        if any(s in str(g.get("t")) for s in STATEFUL) and not g.get("const"):
            for f in D.fs:
                for e in D.enter(f).events:
                    if e.kind == "draw" and gname.split("@")[0] in str(e.dist):
                        c.viol("kept:" + gname, "%s draws through %s, a distribution that keeps a value for the next draw, across trainings" % (f["name"], gname), at(e))
    for i in sorted(core):
        f = D.db["fns"][i]
        if f.get("body") is None or f["file"].startswith("external"):
            continue
        for y in nodes(f["body"]):
            if y.get("s") == "decl":
                for d in y.get("d") or []:
                    if d.get("static") and any(s in str(d.get("t")) for s in STATEFUL + ("mersenne_twister_engine", "linear_congruential_engine")):
                        c.viol("kept:%s" % d["name"], "%s keeps %s between trainings: draws depend on what was trained before" % (f["name"], d["name"]), "src/%s:%s" % (f["file"], y.get("l")))
    c.counts["globals_written"] = len(w)


def reads(e, g):
    if e.kind == "read" and e.root in (("g", g), ("static", g)):
        return True
    return any(x.op == "init" and x.a[0] in (("g", g), ("static", g)) for x in batoms(e.pc))


def free(t):
    return any(x.op in ("sym", "init", "ret", "draw", "out") for x in subterms(t))


# ------------------------------------------------------------------ Python front end
def python(c):
    """The order in which the package hands features and options to the native side is fixed."""
    p = os.path.join(c.db["repo"], "gbdt", "_gbdt.py")
    if not os.path.exists(p):
        c.undecided("python:train", "gbdt/_gbdt.py", "missing")
        return
    try:
        tree = ast.parse(open(p).read())
    except SyntaxError as u:
        c.undecided("python:train", "gbdt/_gbdt.py", "does not parse: %s" % u)
        return
    n = 0
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        sets = set()

        def isset(e):
            if isinstance(e, (ast.Set, ast.SetComp)):
                return True
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return True
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference"):
                return isset(e.func.value)
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
                return isset(e.left) or isset(e.right)
            return isinstance(e, ast.Name) and e.id in sets

        for _ in range(3):
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and isset(x.value):
                    sets |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        okctx = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sorted", "set", "frozenset", "len", "any", "all", "min", "max", "sum"):
                for a in x.args:
                    okctx.add(id(a))
            if isinstance(x, ast.Raise):
                for y in ast.walk(x):
                    okctx.add(id(y))
        for x in ast.walk(fn):
            it = []
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and id(x) not in okctx:
                it = [g.iter for g in x.generators]
            elif isinstance(x, ast.For):
                it = [x.iter] if ordered_body(x) else []
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate", "iter") and x.args and id(x) not in okctx:
                it = [x.args[0]]
            for i in it:
                n += 1
                if isset(i):
                    c.viol("set-order:%s" % fn.name, "%s passes on the elements of a set in iteration order, which differs between processes" % fn.name, "gbdt/_gbdt.py:%d" % x.lineno)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("random", "time", "uuid", "secrets") \
                    and not (x.func.value.id == "time"):
                c.viol("python-random:%s" % fn.name, "%s uses %s.%s, which the seed does not control" % (fn.name, x.func.value.id, x.func.attr), "gbdt/_gbdt.py:%d" % x.lineno)
    c.ok("python:train", "gbdt/_gbdt.py", "%d iterations" % n)


def ordered_body(x):
    return any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "extend", "insert") or isinstance(y, (ast.Yield, ast.AugAssign)) for y in ast.walk(x))
