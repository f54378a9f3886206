"""C01: tasks that may run at the same time never conflict on memory without a common lock."""
from ..core import *
from .footmodel import *


def check(c):
    c.rules.append("footprint analysis: the accesses (object, path, read or write, locks held) of every task handed to a pool, with calls replaced by the interprocedural footprint of the callee for each dynamic class, "
                   "are placed in memory under interpretations of the inputs with disjoint work slices; accesses of two tasks between enqueue and join that overlap, one of them a write, must share a lock")
    F_ = Foot(c)
    tasks = acc = 0
    n = 0
    for f in F_.entry:
        where = "src/%s:%s" % (f["file"], f["l"])
        name = f["name"].replace("gbdt::", "")
        seen = 0
        try:
            for R in worlds(c, F_, f):
                n += 1
                seen += len(R.tasks)
                tasks += len(R.tasks)
                acc += R.n
                for i, b, j, a in R.races:
                    w, o = (a, b) if a.w else (b, a)
                    c.viol("race:%s:%s" % (name, pname(F_, a.root, tuple(p for p in a.path if p[0] == "."))),
                           "%s: two concurrent tasks access %s, %s writes it%s while %s %s it%s, without a common lock" % (
                               name, pname(F_, a.root, a.path), w.at, " (in %s)" % w.what if w.what else "", o.at, "writes" if o.w else "reads", " (in %s)" % o.what if o.what else ""), w.at)
        except EV.Stuck as u:
            c.undecided("tasks:" + name, where, "reads %s" % u)
            continue
        except EV.Unknown as u:
            c.undecided("tasks:" + name, where, str(u))
            continue
        if not seen:
            c.undecided("tasks:" + name, where, "no task was handed out in any interpretation")
            continue
        if not any(v["key"].startswith("race:%s:" % name) for v in c.viols):
            c.ok("tasks:" + name, where)
    if not F_.entry:
        c.undecided("pools", "", "no function hands work to a pool")
    c.counts["functions_with_pools"] = len(F_.entry)
    c.counts["interpretations"] = n
    c.counts["tasks_traced"] = tasks
    c.counts["accesses_placed"] = acc
    c.counts["footprints"] = len(F_.fps)
