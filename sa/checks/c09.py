"""C09: success is reported only after output is completely written."""
import random

from ..core import *
from .. import interp as IN, lib as L
from .c07 import failing, reported, never, is_status
from .c10 import Null
from .c22 import run
from .c36 import Bad, role
from .recmodel import *

WRITES = ("write", "put", "sout")
FLUSHES = ("flush", "close")


def check(c):
    c.rules.append("typestate of every output file stream (closed, open, failed, flushed) over the guarded event sequence of the function that creates it: for a failure of the opening, of a write and of the "
                   "final flush, the state queries answer as the standard prescribes and the function must end by terminating, throwing or reporting failure; every caller of such a function must do the same")
    N = Null(c)
    ws = []
    for f in N.fs:
        if not creates(c, f):
            continue
        kw = dict(this_type=f["rec"]) if f.get("rec") and not f.get("static") and not f.get("ctor") else {}
        I = c.enter(f, mem=True, opaque={"!pred": lambda g: None if part(c, N, g) else "effect"}, **kw)
        ws.append((f, I))
    if not ws:
        raise Missing("functions that write files")
    W = {}
    for f, I in ws:
        name = f["name"].replace("gbdt::", "")
        at = "src/%s:%s" % (f["file"], f["l"])
        S = Streams(I)
        if S.unknown:
            c.undecided(name, at, S.unknown)
        n = faults(c, f, I, S, name, at)
        c.counts["faults"] = c.counts.get("faults", 0) + n
        if not n:
            c.undecided(name, at, "no output stream recognised")
        if f["rt"] == "bool" or is_status(f["rt"]):
            W[f["id"]] = f
    callers(c, N, W)
    run(c, "checkpoints", "src/gbdt_algo/evaluation.cc", lambda: checkpoints(c))


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def isout(t):
    return "ofstream" in (t or "") or "fstream" in (t or "") and "ifstream" not in (t or "") or "basic_ofstream" in (t or "")


def creates(c, f):
    """The function (or a lambda in it) makes an output file stream."""
    memo = c.db.setdefault("_creates", {})
    if f["id"] not in memo:
        memo[f["id"]] = False
        memo[f["id"]] = any(n.get("k") == "ctor" and isout(n.get("rec") or n.get("t")) or n.get("k") == "lambda" and n.get("fn") in c.db["fns"] and creates(c, c.db["fns"][n["fn"]])
                            for n in nodes(f.get("body")))
    return memo[f["id"]]


def part(c, N, g):
    """Functions that are looked into: helpers, but not those that write files of their own."""
    if g.get("islambda"):
        return True
    if any(isout(p["t"]) or "ostream" in p["t"] for p in g["params"]):
        return g.get("body") is not None and g["id"] not in N.rec
    return N.followed(g) and not creates(c, g)


class Streams:
    """Output file streams of an interpretation: events by object."""

    def __init__(self, I):
        self.I = I
        self.obj = {}           # (root, path) -> [(index, kind, event)]
        self.at = {}            # id of a query -> event index
        self.unknown = None
        evs = I.events
        for e in evs:
            if e.kind == "write" and isinstance(e.val, Term) and e.val.op == "stream" and isout(e.val.a[0]):
                self.obj.setdefault((e.root, e.path), [])
        for i, e in enumerate(evs):
            if e.kind == "write" and isinstance(e.val, Term) and e.val.op == "stream" and (e.root, e.path) in self.obj:
                self.obj[(e.root, e.path)].append((i, "open" if e.val.a[1] else "new", e))
            if e.kind in ("stream", "sout") and e.obj is not None and e.obj.op == "addr":
                o = (e.obj.a[0], e.obj.a[1])
                if e.kind == "stream" and getattr(e, "res", None) is not None:
                    self.at[e.res.a[2]] = i
                if o not in self.obj:
                    continue
                if e.kind == "sout":
                    self.obj[o].append((i, "write", e))
                    if endl(e.val):
                        self.obj[o].append((i, "flush", e))
                elif e.op == "open":
                    self.obj[o].append((i, "open", e))
                elif e.op in WRITES:
                    self.obj[o].append((i, "write", e))
                elif e.op in FLUSHES:
                    self.obj[o].append((i, e.op, e))
                elif e.op in ("exceptions", "clear", "setstate", "rdbuf", "swap"):
                    self.unknown = "stream operation %s" % e.op

    def plan(self, o):
        """The faults to consider for a stream: [(kind, index, event)], and the flushes after the last write."""
        es = self.obj[o]
        opens = [(k, i, e) for i, k, e in es if k == "open"]
        writes = [(k, i, e) for i, k, e in es if k == "write"]
        last = max([i for _, i, _ in writes] or [i for _, i, _ in opens] or [-1])
        final = [(k, i, e) for i, k, e in es if k in FLUSHES and i >= last]
        return opens, writes, final


def endl(v):
    return isinstance(v, Term) and manipulator(v) in ("endl", "flush")


def later(S, i, iloops, ivals, j, jloops, jvals):
    """Event j happens after event i."""
    for a, b, x, y in zip(iloops, jloops, ivals, jvals):
        if a != b:
            break
        if x != y:
            return y > x
    return j > i


def answer(m, kind, failed, closed):
    """What query m of a stream says after a fault of the given kind (or without one)."""
    if m == "is_open":
        return not (failed and kind == "open") and not closed
    if m in ("fail", "operator!"):
        return failed
    if m == "bad":
        return failed and kind in ("write", "flush")
    if m in ("good", "operator bool"):
        return not failed
    if m == "eof":
        return False
    return None


def queries(S, o, kind, i, e, vals):
    """Answers of the queries when event i (iteration vals of its loops) fails: f(key) -> value or None."""
    closes = [(j, x) for j, k, x in S.obj[o] if k == "close"]

    def f(k):
        if k[0] != "sres" or k[3] not in S.at:
            return None
        j = S.at[k[3]]
        q = S.I.events[j]
        if (q.obj.a[0], q.obj.a[1]) != o:
            return answer(k[1], None, False, False)
        at = tuple(k[4]) if len(k) > 4 and isinstance(k[4], tuple) else ()
        failed = e is not None and later(S, i, e.loops, vals, j, q.loops, at)
        closed = any(set(x.loops) <= set(q.loops) and later(S, n, x.loops, at[:len(x.loops)], j, q.loops, at) for n, x in closes)
        return answer(k[1], kind, failed, closed)
    return f


def faults(c, f, I, S, name, at):
    R = reported(f, I)
    n = 0
    for o in S.obj:
        opens, writes, final = S.plan(o)
        if not opens:
            continue
        cases = [("opened", k, i, e) for k, i, e in opens[:3]] + [("written", k, i, e) for k, i, e in writes[:1] + writes[-1:]] + [("flushed", k, i, e) for k, i, e in final[:2]]
        for what, k, i, e in cases:
            n += 1
            hookf = queries(S, o, k, i, e, (0,) * len(e.loops))

            def hook(env, q, t, hookf=hookf):
                if q[0] == "b":
                    q = q[1]
                if q[0] == "idx":
                    return Fraction(0)
                return hookf(q)
            g = band(e.pc, bnot(R))
            nope(c, g, hook, "%s:%s" % (name, what), "a file that cannot be %s is not reported by %s" % (what, name), loc(e))
        # the last data leaves the program when the stream is destroyed, where nobody sees a failure
        n += 1
        seen = bor(0, *[e.pc for _, _, e in final])
        hookf = queries(S, o, "end", 0, None, ())
        k, i, e = (writes or opens)[-1]
        over = bor(0, *[x.pc for x in [e]])
        g = band(over if not e.loops else opens[0][2].pc, bnot(seen), bnot(R))
        nope(c, g, lambda env, q, t: Fraction(0) if q[0] == "idx" else hookf(q[1] if q[0] == "b" else q), "%s:unflushed" % name, "%s reports success before the last data is flushed" % name, loc(e))
    return n


def nope(c, g, hook, key, what, where):
    if g == 0:
        return c.ok(key, where)
    r, info = EV.search(g, seed=c.seed, hook=hook)
    if r == "point":
        c.viol(key, what, where)
    elif r == "none":
        c.ok(key, where)
    else:
        c.undecided(key, where, str(info))


def callers(c, N, W):
    """Whoever calls a function that reports a failed write reports it as well."""
    done = set()
    n = 0
    while True:
        more = [f for f in N.fs if f["id"] not in done and f["id"] not in W and calls(c, N, f) & set(W)]
        if not more:
            break
        for f in more:
            done.add(f["id"])
            kw = dict(this_type=f["rec"]) if f.get("rec") and not f.get("static") and not f.get("ctor") else {}
            I = c.enter(f, opaque={"!pred": lambda g: None if g["id"] not in W and (g.get("islambda") or N.followed(g)) else "effect"}, **kw)
            R = reported(f, I)
            name = f["name"].replace("gbdt::", "")
            for e in I.events:
                if e.kind != "call" or e.fid not in W:
                    continue
                n += 1
                k = "status" if is_status(W[e.fid]["rt"]) else "bool"
                if e.loops:
                    continue        # decided by interpretation
                never(c, band(e.pc, failing(e.ret, k), bnot(R)), "%s:%s" % (name, e.fn), "%s reports that writing failed and %s goes on without reporting it" % (e.fn, name), loc(e))
            if f["rt"] == "bool" or is_status(f["rt"]):
                W[f["id"]] = f
    c.counts["calls_of_writers"] = n


def calls(c, N, f):
    memo = c.db.setdefault("_calls9", {})
    if f["id"] not in memo:
        memo[f["id"]] = s = set()
        for i in {n.get("fn") for n in nodes(f.get("body")) if n.get("fn")}:
            g = c.db["fns"].get(i)
            if g is not None:
                s.add(i)
                if g.get("islambda"):
                    s |= calls(c, N, g)
    return memo[f["id"]]


def checkpoints(c):
    """The checkpoint loop with its writer looked into: every single fault must be reported."""
    fs = [f for f in c.find("EvaluateForest") if any("list<int" in p["t"] for p in f["params"])]
    if not fs:
        raise Missing("EvaluateForest(..., list<int>, ...)")
    f = fs[0]
    where = "src/%s:%s" % (f["file"], f["l"])
    kf, kp, kd = role(f, "Forest"), role(f, "list<int"), role(f, "string")
    I = c.enter(f, mem=True, opaque={"LoadFeatures": "effect", "CollectAllFeatures": "effect", "DataStore::num_rows": "pure", "AddTreeScores": "effect", "ComputeTreeScores": "effect"})
    S = Streams(I)
    if S.unknown:
        raise EV.Unknown(S.unknown)
    if not S.obj:
        raise EV.Unknown("no output stream recognised")
    index = {id(e): i for i, e in enumerate(I.events)}
    kinds = {}
    for o, es in S.obj.items():
        for i, k, e in es:
            kinds.setdefault(i, []).append((o, k))
    n = tried = 0
    for it in range(60 if c.tier == "thorough" else 14):
        r = random.Random("%s/w%d" % (c.seed, it))
        nt, nr = r.randint(1, 4), r.randint(1, 3)
        req = [r.randint(1, 4) for _ in range(r.randint(1, 4))]

        def world(q):
            env = EV.Env(it)
            env.steps = 10 ** 6

            def sem(env, k):
                if k[0] == "init":
                    if k[1] == ("arg", kf):
                        return {"tree": [{"id": Fraction(j)} for j in range(nt)]}
                    if k[1] == ("arg", kp):
                        return [Fraction(x) for x in req]
                    if k[1] == ("arg", kd):
                        return ("str", "D")
                if k[0] == "ret" and fnname(k) == "num_rows":
                    return Fraction(nr)
                if k[0] == "code":
                    return Fraction(k[1][1]) if isinstance(k[1], tuple) and k[1][0] == "status" else Fraction(0)
                if k[0] == "out":
                    return k[5]
                return q(k)
            env.sem = sem
            return env
        # what happens without a fault
        env = world(lambda k: answer(k[1], None, False, False) if k[0] == "sres" else None)
        run_ = []
        for e in trace(I.events, env):
            i = index[id(e)]
            if i in kinds:
                vals = tuple(int(env.dyn[IN.LOOPS[l].idx]) for l in e.loops)
                run_ += [(o, k, i, e, vals) for o, k in kinds[i]]
        per = {}
        for o, k, i, e, vals in run_:
            xs = per.setdefault(o, [])
            if k in ("new", "open") and (not xs or any(x[0] not in ("new",) for x in xs[-1])):
                xs.append([])
            xs[-1].append((k, i, e, vals))
        d = "checkpoints %s of %d trees" % (req, nt)
        for o, insts in per.items():
            for m, es in enumerate(insts):
                writes = [x for x in es if x[0] == "write"]
                if not any(x[0] == "open" for x in es) or not writes:
                    continue
                after = [x for x in es if x[0] in FLUSHES and es.index(x) > max(j for j, y in enumerate(es) if y[0] == "write")]
                if not after:
                    raise Bad("checkpoints:unflushed", "success is reported before the last data of a score file is flushed (%s)" % d, loc(writes[-1][2]))
                nxt = insts[m + 1][0] if m + 1 < len(insts) else None
                for what, (k, i, e, vals) in [("opened", [x for x in es if x[0] == "open"][0]), ("written", writes[0]), ("written", writes[-1]), ("flushed", after[0])]:
                    q0 = queries(S, o, k, i, e, vals)
                    ok = queries(S, o, None, 0, None, ())

                    def q(key):
                        if key[0] == "sres" and key[3] in S.at and nxt is not None:
                            x = I.events[S.at[key[3]]]
                            at = tuple(key[4]) if len(key) > 4 and isinstance(key[4], tuple) else ()
                            if later(S, nxt[1], nxt[2].loops, nxt[3], S.at[key[3]], x.loops, at):
                                return ok(key)
                        return q0(key)
                    env = world(q)
                    tried += 1
                    if any(EV.evg(x, env, {}) for x in I.deaths):
                        continue
                    if EV.num_(EV.ev(L.code(I.value), env, want="int")) == 0:
                        raise Bad("checkpoints:%s" % what, "a score file that cannot be %s is not reported (%s, file %d)" % (what, d, m + 1), loc(e))
        n += 1
    c.counts["checkpoint_faults"] = tried
    return n
