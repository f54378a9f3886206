"""C03: the thread pool runs every task exactly once and its destruction waits for all of them."""
from ..core import *
from .recmodel import *

ABS = {"!inline": ("ThreadPool",)}
POOL = "ThreadPool"


def check(c):
    c.rules.append("protocol obligations on the event sequences of the pool's functions (the pool itself entered, not modelled): lockset of every access to the queue and the flag, one step of the worker interpreted from every "
                   "abstract state (queue length, flag), order of push / flag, notification and join, number of workers, no other writer of the shared state")
    P = Pool(c)
    P.shared()
    P.worker()
    P.enqueue()
    P.shutdown()
    P.start()
    P.writers()
    c.counts["functions_of_the_pool"] = len(P.fs)
    c.counts["events_checked"] = sum(len(I.events) for I in P.I.values())


def at(e):
    return "src/%s:%s" % (e.file, e.line)


def lockset(e):
    return {l[1] for l in e.locks if isinstance(l[1], Term)}


def find(g):
    """A point where the guard holds; sizes up to large ones."""
    r = EV.search(g)
    if r[0] != "point":
        r = EV.search(g, ints=[0, 1, 2, 5, 11, 101, 1001, 4097, 65537, 10 ** 6 + 1, 2 ** 31 - 1])
    return r


class Pool:
    def __init__(self, c):
        self.c = c
        r = c.db["recs"].get(POOL)
        if r is None:
            raise Missing("class ThreadPool")
        self.rec = r
        self.fs = [f for f in c.db["fns"].values() if f.get("rec") == POOL and f.get("body") is not None and not f.get("implicit") and not f.get("islambda")]
        self.I = {f["id"]: c.enter(f, mem=True, opaque=ABS, this_type=POOL) for f in self.fs}
        t = {x["name"]: x["t"] for x in r["fields"]}
        self.queue = [n for n, y in t.items() if "function" in y and "thread" not in y.replace("threadpool", "")]
        self.flag = [n for n, y in t.items() if y.replace("std::", "").replace("atomic<bool>", "bool") in ("bool", "atomic_bool")]
        self.threads = [n for n, y in t.items() if "thread" in y]
        self.mutex = [n for n, y in t.items() if "mutex" in y]
        if len(self.queue) != 1 or len(self.flag) != 1 or len(self.threads) != 1 or len(self.mutex) < 1:
            raise Missing("queue, flag, threads and mutex of the pool")
        self.queue, self.flag, self.threads = self.queue[0], self.flag[0], self.threads[0]
        self.ctor = [f for f in self.fs if f.get("ctor")]
        self.dtor = [f for f in self.fs if f.get("dtor") or "~" in f["name"]]
        push = [f for f in self.fs if len(f["params"]) == 1 and "function" in f["params"][0]["t"] and not f.get("ctor")]
        if len(self.ctor) != 1 or len(push) != 1:
            raise Missing("constructor and Enqueue of the pool")
        self.ctor, self.push = self.ctor[0], push[0]
        run = [f for f in self.fs if any(e.kind == "icall" for e in self.I[f["id"]].events) and any(e.kind == "wait" for e in self.I[f["id"]].events)]
        if not run:
            run = [f for f in self.fs if any(e.kind == "icall" for e in self.I[f["id"]].events)]
        run = [f for f in run if not f.get("ctor")] or run
        self.run = run[0] if run else None
        self.tail = {}

    def name(self, f):
        return f["name"].split("::")[-1]

    def where(self, f):
        return "src/%s:%s" % (f["file"], f["l"])

    def events(self, f):
        return self.I[f["id"]].events

    def field(self, e):
        """Shared field an access touches."""
        if e.kind in ("read", "write") and e.root == ("this",) and e.path and e.path[0][0] == ".":
            return e.path[0][1]
        return None

    # ---------------------------------------------------------------- locks
    def shared(self):
        c = self.c
        n = 0
        locks = None
        for f in self.fs:
            if f.get("ctor"):
                continue
            for e in self.events(f):
                x = self.field(e)
                if x in (self.queue, self.flag):
                    n += 1
                    ls = lockset(e)
                    if not ls:
                        c.viol("unlocked:%s:%s" % (self.name(f), x), "%s %s %s without holding the pool's lock" % (self.name(f), "changes" if e.kind == "write" else "reads", x), at(e))
                        continue
                    locks = ls if locks is None else locks & ls
                    if not locks:
                        c.viol("locks:%s" % x, "%s and the other functions of the pool access %s under different locks" % (self.name(f), x), at(e))
                        locks = None
                if e.kind == "lock" and isinstance(e.mutex, Term) and sum(1 for l in e.locks if l[1] is e.mutex) > 1:
                    c.viol("twice:%s" % self.name(f), "%s locks a mutex it already holds" % self.name(f), at(e))
                if e.kind == "icall" and e.locks:
                    c.viol("held:%s" % self.name(f), "%s runs a task while it holds the pool's lock" % self.name(f), at(e))
                if e.kind == "thr" and e.op == "join" and e.locks:
                    c.viol("join-held:%s" % self.name(f), "%s joins a worker while it holds the lock the worker needs" % self.name(f), at(e))
                if e.kind == "wait" and not e.locks:
                    c.viol("wait-unlocked:%s" % self.name(f), "%s waits without the lock" % self.name(f), at(e))
        self.lock = locks
        c.counts["shared_accesses"] = n
        if n == 0:
            c.undecided("lockset", self.where(self.push), "no access to the queue")
        elif not c.viols:
            c.ok("lockset", self.where(self.push))

    # ---------------------------------------------------------------- worker
    def worker(self):
        c = self.c
        f = self.run
        if f is None:
            c.viol("worker:none", "no function of the pool runs tasks", self.where(self.push))
            return
        evs = self.events(f)
        where = self.where(f)
        wl = {e.loops[0] for e in evs if e.kind == "icall" and e.loops}
        if len(wl) != 1:
            e = next((e for e in evs if e.kind == "icall"), None)
            if e is not None and not e.loops and not f.get("ctor"):
                c.viol("worker:once", "a worker runs a single task and stops", at(e))
            else:
                c.undecided("worker", where, "loop of the worker")
            return
        lid = wl.pop()
        for n in (0, 1, 2):
            for b in (False, True):
                try:
                    self.state(f, evs, lid, n, b, where)
                except EV.Stuck as u:
                    c.viol("worker:empty", "a worker takes a task from an empty queue (%d tasks, %sshut down)" % (n, "" if b else "not "), where)
                except EV.Unknown as u:
                    c.undecided("worker:%d:%s" % (n, b), where, str(u))
        self.tail[lid] = True

    def state(self, f, evs, lid, n, b, where):
        """One step of the worker from a state with n tasks in the queue and the shut down flag b."""
        c = self.c
        L_ = IN.LOOPS[lid]
        env = EV.Env("%d%s" % (n, b))
        env.steps = 10 ** 5
        tasks = [("fun", "task%d" % i) for i in range(n)]

        def sem(env, k):
            if k == ("init", ("this",)):
                return {self.queue: list(tasks), self.flag: b, self.threads: []}
            if k[0] == "default":
                return {}
            if k[0] == "icall":
                return F(0)
            if k[0] == "truth":
                return k[1] != ("null",)
            return None
        env.sem = sem
        st = "%d queued task%s, %s" % (n, "" if n == 1 else "s", "shut down" if b else "not shut down")
        blocked = exited = False
        popped, ran = [], []
        between = None
        env.dyn[L_.idx] = F(0)
        if not EV.evg(L_.cond, env, {}):
            exited = True
        else:
            for e in self.step(evs, lid, env):
                if e == "blocked":
                    blocked = True
                    continue
                if blocked and e.kind in ("pop", "icall"):
                    c.viol("worker:spurious", "a worker that is woken without a task or shut down goes on to take a task: the condition is not checked again after the wait", at(e))
                    return
                if e.kind == "wait":
                    between = None
                    if e.haspred:
                        if not EV.evg(e.pred, env, {}):
                            blocked = True
                            break
                    elif len(e.loops) < 2:
                        blocked = True
                if e.kind == "lock":
                    between = e
                if e.kind == "pop":
                    popped.append(e)
                    if between is not None and any(x.kind == "wait" for x in evs) and self.unlocked_check(evs, lid, between, e):
                        c.viol("worker:recheck", "the lock is released between the check that a task is queued and taking it", at(e))
                        return
                if e.kind == "icall":
                    ran.append((EV.hk(EV.ev(e.fn, env)), e))
                if e.kind == "return" and e.depth == 2:
                    exited = True
                    break
        if n == 0 and b and not exited and not blocked:
            exited = self.ends(lid, env)
        k = "worker:%s:%s" % (min(n, 1), b)
        if n == 0 and not b:
            if exited:
                return c.viol(k, "a worker ends although the pool is not shut down (%s)" % st, where)
            if popped or ran:
                return c.viol(k, "a worker takes a task from an empty queue (%s)" % st, where)
        elif n == 0:
            if blocked:
                return c.viol(k, "a worker keeps waiting after the shut down (%s): the destructor never returns" % st, where)
            if popped or ran:
                return c.viol(k, "a worker takes a task from an empty queue (%s)" % st, where)
            if not exited:
                return c.viol(k, "a worker does not end after the shut down (%s)" % st, where)
        else:
            if blocked:
                return c.viol(k, "a worker keeps waiting although a task is queued (%s)" % st, where)
            if exited:
                return c.viol(k, "a worker ends although a task is queued (%s)" % st, where)
            if not popped:
                return c.viol(k, "a worker does not remove the task it runs from the queue (%s)" % st, where) if ran else c.viol(k, "a worker does not take a queued task (%s)" % st, where)
            if len(popped) != 1 or len(ran) != 1:
                return c.viol(k, "a worker removes %d tasks and runs %d (%s)" % (len(popped), len(ran), st), where)
            first = EV.hk(tasks[0])
            if ran[0][0] not in [EV.hk(t) for t in tasks]:
                raise EV.Unknown("the task that runs: %s" % (str(ran[0][0])[:80],))
            left = self.left(popped[0], env)
            if ran[0][0] in left:
                return c.viol(k, "a worker runs %s but removes another one (%s)" % ("the newest task" if ran[0][0] != first else "a task", st), at(ran[0][1]))
        c.ok("worker:%d:%s" % (n, b), where, st)

    def ends(self, lid, env):
        """The loop of the worker ends after this iteration (by what the iteration leaves behind)."""
        L_ = IN.LOOPS[lid]
        sv = dict(env.dyn)
        env.dyn.pop(L_.idx, None)
        try:
            st, early, i = EV.fold(lid, None, env, {}, stop=1)
            if early:
                return True
            nx = {}
            env.dyn[L_.idx] = F(0)
            for x in EV.loopdeps(lid, None):
                env.dyn[L_.mu[x]] = EV.ev(L_.init[x], env)
            for x in EV.loopdeps(lid, None):
                nx[x] = EV.ev(L_.next[x], env)
            env.dyn[L_.idx] = F(1)
            for x, v in nx.items():
                env.dyn[L_.mu[x]] = v
            return not EV.evg(L_.cond, env, {})
        finally:
            env.dyn = sv

    def left(self, e, env):
        """Tasks left in the queue after a pop event."""
        for w in self.events(self.run):
            if w.kind == "write" and w.line == e.line and w.root == ("this",) and w.path and w.path[0][1] == self.queue and w.how == "pop":
                v = EV.ev(w.val, env)
                return [EV.hk(x) for x in v] if isinstance(v, list) else []
        return []

    def unlocked_check(self, evs, lid, lock, pop):
        """A lock taken after the wait and before the pop."""
        i = evs.index(lock)
        w = [j for j, e in enumerate(evs) if e.kind == "wait" and e.loops and e.loops[0] == lid]
        return bool(w) and w[-1] < i < evs.index(pop)

    def step(self, evs, lid, env):
        """Events of one iteration of the worker's loop."""
        i = 0
        evs = [e for e in evs if e.loops and e.loops[0] == lid]
        while i < len(evs):
            e = evs[i]
            if len(e.loops) == 1:
                if EV.evg(e.pc, env, {}):
                    yield e
                i += 1
                continue
            j = i
            while j < len(evs) and len(evs[j].loops) > 1 and evs[j].loops[1] == e.loops[1]:
                j += 1
            inner = evs[i:j]
            if any(x.kind == "wait" for x in inner):
                L_ = IN.LOOPS[e.loops[1]]
                env.dyn[L_.idx] = F(0)
                try:
                    if EV.evg(L_.cond, env, {}) and not (L_.early and EV.evg(L_.early, env, {})):
                        w = next(x for x in inner if x.kind == "wait")
                        if EV.evg(w.pc, env, {}):
                            yield "blocked"
                            return
                finally:
                    env.dyn.pop(L_.idx, None)
            else:
                yield from trace(inner, env, 1)
            i = j

    # ---------------------------------------------------------------- producers
    def cvs(self):
        return {e.cv for e in self.events(self.run) if e.kind == "wait"} if self.run else set()

    def notified(self, f, e, evs, all_):
        """Is every path through event e followed by a notification that wakes a worker (all workers)?"""
        i = evs.index(e)
        left = e.pc
        for j, x in enumerate(evs):
            if x.kind != "notify" or x.cv not in self.cvs():
                continue
            same = bool(lockset(x) & lockset(e)) and not any(y.kind == "lock" for y in evs[min(i, j):max(i, j)])
            if j < i and not same:
                continue
            if all_ and x.op != "notify_all" and not (x.loops and not e.loops and self.perthread(x)):
                continue
            if x.loops != e.loops and not (x.loops and self.perthread(x)):
                continue
            left = band(left, bnot(x.pc)) if x.loops == e.loops else band(left, bnot(e.pc))
        return left

    def perthread(self, x):
        L_ = IN.LOOPS[x.loops[0]]
        return self.threads in (show(L_.bound) if L_.bound is not None else "")

    def enqueue(self):
        c = self.c
        f = self.push
        evs = self.events(f)
        where = self.where(f)
        ps = [e for e in evs if e.kind == "write" and self.field(e) == self.queue and e.how == "push"]
        cover = 0
        for e in ps:
            cover = bor(cover, e.pc)
        if not ps or bnot(cover) != 0 and find(bnot(cover))[0] == "point":
            c.viol("enqueue:drop", "Enqueue does not queue the task on every path", where)
            return
        for i, e in enumerate(ps):
            if e.loops or any(band(e.pc, o.pc) and find(band(e.pc, o.pc))[0] == "point" for o in ps[:i]):
                c.viol("enqueue:twice", "Enqueue queues the task more than once", at(e))
                return
            v = e.val
            if not (isinstance(v, Term) and v.op in ("push", "pushfront") and argval(f, 0) in v.a or any(t is argval(f, 0) for t in v.a if isinstance(t, Term))):
                c.undecided("enqueue:value", at(e), show(v)[:80])
            n = self.notified(f, e, evs, False)
            if n != 0 and find(n)[0] == "point":
                later = [x for x in evs if x.kind == "notify"]
                c.viol("enqueue:notify", "Enqueue %s: a waiting worker may never learn of the task" % (
                    "wakes a worker before the task is queued, or not on every path" if later else "does not wake a worker"), at(e))
                return
        if not any(v["key"].startswith("enqueue") for v in c.viols):
            c.ok("enqueue", where)

    def shutdown(self):
        c = self.c
        if len(self.dtor) != 1:
            return c.viol("destructor", "the pool has no destructor that waits for its workers", self.where(self.push))
        f = self.dtor[0]
        evs = self.events(f)
        where = self.where(f)
        sets = [e for e in evs if e.kind == "write" and self.field(e) == self.flag]
        ok = [e for e in sets if e.val is TRUE or isinstance(e.val, Term) and e.val is B(1)]
        if not ok or all(e.pc != 1 for e in ok):
            return c.viol("shutdown:flag", "destroying the pool does not set the shut down flag on every path", where)
        e = ok[-1]
        n = self.notified(f, e, evs, True)
        if n != 0:
            return c.viol("shutdown:notify", "destroying the pool does not wake all workers after the flag is set: a sleeping worker is never joined", at(e))
        i = evs.index(e)
        joins = [x for x in evs if x.kind == "thr" and x.op == "join"]
        if any(evs.index(x) < i for x in joins):
            return c.viol("shutdown:order", "workers are joined before the shut down flag is set", at(joins[0]))
        if joins and any(x.kind == "notify" and evs.index(x) > evs.index(joins[0]) for x in evs) and not any(x.kind == "notify" and i < evs.index(x) < evs.index(joins[0]) for x in evs):
            if not any(x.kind == "notify" and lockset(x) & lockset(e) for x in evs):
                return c.viol("shutdown:order", "workers are joined before they are woken", at(joins[0]))
        if any(x.kind == "thr" and x.op == "detach" for x in evs):
            return c.viol("shutdown:detach", "a worker is detached instead of joined", where)
        env = EV.Env("join")
        env.steps = 10 ** 5
        N = 3

        def sem(env, k):
            if k == ("init", ("this",)):
                return {self.queue: [], self.flag: False, self.threads: [("thread", i) for i in range(N)]}
            if k[0] == "ret" and fnname(k) == "joinable":
                return True
            if k[0] in ("ret", "truth") and "joinable" in str(k):
                return True
            if k[0] == "default":
                return {}
            return None
        env.sem = sem
        got = []
        try:
            for x in trace(evs, env):
                if x.kind == "thr" and x.op == "join":
                    a = EV._k((x.obj.a[0], x.obj.a[1]), env, {}) if x.obj.op == "addr" else EV.hk(EV.ev(x.obj, env))
                    got.append(a)
        except EV.Unknown as u:
            return c.undecided("shutdown:join", where, str(u))
        if len(set(map(str, got))) != N:
            return c.viol("shutdown:join", "destroying the pool joins %d of %d workers" % (len(set(map(str, got))), N), where)
        if len(got) != N:
            return c.viol("shutdown:join", "destroying the pool joins a worker twice", where)
        c.ok("shutdown", where)

    def start(self):
        c = self.c
        f = self.ctor
        evs = self.events(f)
        where = self.where(f)
        for n in (-2, 0, 1, 3):
            env = EV.Env("start")
            env.steps = 10 ** 5

            def sem(env, k):
                if k == ("init", ("this",)):
                    return {}
                if k[0] in ("sym", "init") and "arg" in str(k):
                    return F(n)
                if k[0] == "default":
                    return {}
                return None
            env.sem = sem
            try:
                th = [x for x in trace(evs, env) if x.kind == "thread"]
                kept = EV.ev(self.I[f["id"]].memval(("this",)), env)
                kept = kept.get(self.threads) if isinstance(kept, dict) else None
            except EV.Unknown as u:
                c.undecided("start:%d" % n, where, str(u))
                continue
            if not th:
                c.viol("start:none", "a pool of %d threads has no worker: its tasks never run" % n, where)
            elif n > 0 and len(th) != n:
                c.viol("start:count", "a pool of %d threads starts %d workers" % (n, len(th)), where)
            elif isinstance(kept, list) and len(kept) != len(th):
                c.viol("start:kept", "%d of %d workers are kept to be joined" % (len(kept), len(th)), where)
            else:
                c.ok("start:%d" % n, where)
        init = [e for e in evs if e.kind == "write" and self.field(e) == self.flag]
        if not init or not (init[-1].val is B(0) or init[-1].val is FALSE):
            c.viol("start:flag", "the shut down flag is not cleared when the pool is created", where)
        th = [i for i, e in enumerate(evs) if e.kind == "thread"]
        if th and init and evs.index(init[-1]) > th[0]:
            c.viol("start:order", "workers are started before the state they use is set up", where)

    def writers(self):
        """Nobody else changes the queue or the flag."""
        c = self.c
        n = 0
        for f in self.fs:
            if f.get("ctor"):
                continue
            for e in self.events(f):
                if e.kind != "write" or self.field(e) not in (self.queue, self.flag):
                    continue
                n += 1
                x = self.field(e)
                if x == self.flag and not (e.val is TRUE or e.val is B(1)):
                    c.viol("writer:%s:%s" % (self.name(f), x), "%s takes the shut down flag back" % self.name(f), at(e))
                if x == self.queue and e.how not in ("push", "pop"):
                    if f is self.run and e.how in ("=", "swap", "move"):
                        c.undecided("writer:%s" % self.name(f), at(e), "the queue is replaced")
                        continue
                    c.viol("writer:%s:%s" % (self.name(f), x), "%s changes the queue other than by adding or taking a task" % self.name(f), at(e))
                if x == self.queue and e.how == "pop" and f is not self.run and not any(y.kind == "icall" for y in self.events(f)):
                    c.viol("writer:%s:%s" % (self.name(f), x), "%s removes queued tasks without running them" % self.name(f), at(e))
        if not any(v["key"].startswith("writer") for v in c.viols):
            c.ok("writers", self.where(self.push), "%d writes" % n)
