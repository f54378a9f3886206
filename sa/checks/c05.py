"""C05: lazily loaded columns are safe under concurrent requests."""
import random

from ..core import *
from .c22 import run
from .c36 import Bad
from .c12 import *

CLS = "FlatfilesDataStore"
MAP = (".", "column_map_")


def check(c):
    c.rules.append("every access to the column table reachable from a column request to the lazily loading store is made under one common lock of the store, which is never taken again while held")
    c.rules.append("rely/guarantee: the table is unknown again at every lock acquisition; interference may add absent columns there, and under that every critical section of a request must leave "
                   "every entry it found exactly as it was, and what a request returns must be nothing or the entry of the table")
    S = Store(c)
    I, bad = entries(c, S)
    hit = set()
    run(c, "guarantee", S.where("GetColumn", CLS), lambda: guarantee(c, S, I, bad, hit))
    seen = set()
    for name, e in bad:
        if loc(e) not in seen and not any(loc(x) == loc(e) for _, x in bad if id(x) in hit):
            seen.add(loc(e))
            c.never(e.pc, "unlocked:%s" % name, unlocked(e), loc(e))


def unlocked(e):
    return "the column table is %s without a lock of the store being held" % ("changed" if e.kind == "write" else "read")


def shared(m):
    return [(("this",), (MAP,))] if m.op == "addr" and m.a[0] == ("this",) else []


def entries(c, S):
    """Lock discipline of every entry point of a request; the summary of GetColumn with the table unknown at every acquisition."""
    out = None
    common, first = None, None
    n = 0
    bad = []
    for name in ("GetColumn", "GetStringColumn", "GetBucketizedFloatColumn", "GetRawFloatColumn"):
        f = c.method("gbdt::" + CLS, name)
        I = c.enter(f, mem=True, opaque=dict(OP, **{"!shared": shared}), this_type="gbdt::" + CLS)
        if name == "GetColumn":
            out = I
        for e in I.events:
            if e.kind == "lock":
                n += 1
                if any(l[1] is e.mutex for l in e.held[:-1]):
                    c.never(e.pc, "deadlock:%s" % name, "%s takes %s while holding it" % (name, show(e.mutex)), loc(e))
            if e.kind in ("read", "write") and e.root == ("this",) and e.path[:1] == (MAP,):
                n += 1
                held = {l[1] for l in e.locks if l[1].op == "addr" and l[1].a[0] == ("this",)}
                if not held:
                    bad.append((name, e))
                    continue
                if common is None:
                    common, first = held, e
                elif not common & held:
                    c.viol("one lock", "the column table is accessed under %s here and under %s at %s" % (", ".join(map(show, held)), ", ".join(map(show, common)), loc(first)), loc(e))
                else:
                    common &= held
    if not bad:
        c.ok("lock discipline", S.where("GetColumn", CLS), "%d accesses and acquisitions" % n)
    c.counts["table_accesses"] = n
    return out, bad


def guarantee(c, S, I, unheld, hit):
    N = 400 if c.tier == "thorough" else 120
    where = S.where("GetColumn", CLS)
    names = ["a", "b", "c"]
    if not I.sections:
        raise Bad("no section", "the column table is never accessed under a lock", where)
    out = I.memval(("this",))
    mine = {id(e) for e in I.events}
    reads, k = [], -1
    for e in I.events:
        if e.kind == "lock" and shared(e.mutex):
            k += 1
        if e.kind in ("read", "write") and e.root == ("this",) and len(e.path) > 1 and e.path[0] == MAP and e.path[1][0] == "{" and not e.loops:
            reads.append((k, e))
    for it in range(N):
        r = random.Random("%s/i%d" % (c.seed, it))
        fields = {f["name"]: default(f["t"]) for q in ("DataStore", CLS) for f in c.db["recs"]["gbdt::" + q].get("fields") or []}
        rows = r.choice([0, 1, 3])
        have = EV.MapVal()
        for n in names:
            if r.random() < 0.3:
                have.put(("str", n), S.new(n, r.randrange(3), rows))
        this = dict(fields, status_=("status", 0, ("str", "")), flatfiles_dirs_=[("str", "d")], column_map_=have)
        want = r.choice(names)
        files = {"d/" + n: 1 for n in names if r.random() < 0.9}
        files["header"] = r.choice(list(HEADERS) * 4 + ["# dtype=other"])
        files["rows"] = rows if r.random() < 0.8 else rows + 1
        adds = {}       # section -> columns others add before it
        for k in range(len(I.sections)):
            adds[k] = [S.new(n, r.randrange(3), rows) for n in names if r.random() < (0.5 if n == want else 0.2)]
        env = S.env(this, ("str", want), files)
        found = {}
        base = env.sem

        def sem(env, k):
            if k[0] == "sym" and k[1] == "shared":
                i = int(k[2]) - 1
                if i not in found:
                    v = EV.ev(I.sections[i][1], env)
                    v = v.copy() if isinstance(v, EV.MapVal) else EV.MapVal(v)
                    for p in adds[i]:
                        nm = ("str", S.col(p).name)
                        if EV.hk(nm) not in v:
                            v.put(nm, p)
                    found[i] = v
                return found[i]
            return base(env, k)
        env.sem = sem
        at = "'%s' requested, table {%s}, file %s of %d rows; meanwhile others load %s" % (
            want, ", ".join(S.col(p).name for p in have.values()), "'%s'" % files["header"] if "d/" + want in files else "absent", files["rows"],
            "; ".join("{%s}" % ", ".join(S.col(p).name for p in adds[k]) for k in sorted(adds)))
        end = EV.ev(sel(out, MAP), env)
        got = EV.ev(I.value, env)
        done = [i for i, s in enumerate(I.sections) if EV.evg(s[0], env, {})]
        for name, e in unheld:
            if id(e) in mine and id(e) not in hit:
                try:
                    reached = EV.evg(e.pc, env, {})
                except Unknown:
                    continue
                if reached:
                    hit.add(id(e))
                    c.viol("unlocked", "%s (%s)" % (unlocked(e), at), loc(e))
        for a, i in enumerate(done):
            left = EV.ev(I.sections[done[a + 1]][1], env) if a + 1 < len(done) else end
            start = EV.ev(I.sections[i][2], env)
            for k, v in start.items():
                if left.get(k) != v:
                    raise Bad("replaced", "the column '%s' that was in the table when the lock was taken is %s when it is released (%s)" % (
                        S.col(v).name, "gone" if not left.get(k) else "another one", at), where)
            for j, e in reads:
                if j == i and EV.evg(e.pc, env, {}) and EV.hk(EV.ev(e.path[1][1], env)) not in left:
                    raise Bad("empty entry", "an entry without a column is left in the table: '%s' is looked up by a look-up that inserts (%s)" % (EV.ev(e.path[1][1], env)[1], at), loc(e))
            for k, v in left.items():
                if k not in start and S.col(v) is None:
                    raise Bad("empty entry", "an entry without a column is left in the table (%s)" % at, where)
                if k not in start and S.col(v).size != rows and start:
                    raise Bad("length", "a column of %d rows is put into a table of columns of %d rows (%s)" % (S.col(v).size, rows, at), where)
        if S.col(got) is not None and end.get(EV.hk(("str", want))) != got:
            raise Bad("returned", "the column returned is not the one in the table (%s)" % at, where)
        if S.col(got) is None and EV.hk(("str", want)) in have:
            raise Bad("lost", "a column of the table is not found (%s)" % at, where)
    return N
