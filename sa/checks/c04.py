"""C04: results of tasks are used after the join; what tasks and callbacks refer to outlives them."""
from ..core import *
from .footmodel import *


def check(c):
    c.rules.append("happens-before over the event sequence of every function that owns a pool: between handing out a task and joining its pool (or awaiting its promise) the owner may not access what the task writes, "
                   "write what it reads, or end the life of what it refers to; function values that are returned or stored capture no local variable by reference")
    F_ = Foot(c)
    n = tasks = 0
    for f in F_.entry:
        where = "src/%s:%s" % (f["file"], f["l"])
        name = f["name"].replace("gbdt::", "")
        seen = 0
        try:
            for R in worlds(c, F_, f):
                n += 1
                seen += len(R.tasks)
                tasks += len(R.tasks)
                for i, b, j, a in R.early:
                    if j is not None:
                        continue
                    c.viol("early:%s:%s" % (name, pname(F_, a.root, tuple(p for p in a.path if p[0] == "."))),
                           "%s: %s is %s at %s%s although a task that %s it (%s) may still be running" % (
                               name, pname(F_, a.root, a.path), "changed" if a.w else "read", a.at, " (in %s)" % a.what if a.what else "", "writes" if b.w else "reads", b.at), a.at)
                for i, b, e in R.dangling:
                    c.viol("dangling:%s:%s" % (name, pname(F_, b.root, ())),
                           "%s: %s ends its life (%s) while a task that refers to it (%s) may still be running" % (
                               name, pname(F_, b.root, ()), "deleted at line %s" % e.line if e.kind == "delete" else "end of its scope", b.at), b.at)
                if R.active:
                    c.viol("unjoined:%s" % name, "%s: returns while tasks of its pool may still be running" % name, where)
        except EV.Unknown as u:
            c.undecided("tasks:" + name, where, str(u))
            continue
        if not seen:
            c.undecided("tasks:" + name, where, "no task was handed out in any interpretation")
            continue
        if not any(v["key"].split(":")[1] == name for v in c.viols):
            c.ok("tasks:" + name, where)
    callbacks(c, F_)
    c.counts["functions_with_pools"] = len(F_.entry)
    c.counts["interpretations"] = n
    c.counts["tasks_traced"] = tasks


def captured(x, inside=False):
    """(variable, mode, term) captured by the function values in x."""
    if isinstance(x, Term):
        if x.op == "closure":
            for v, mode, t in (y for y in x.a[1] if isinstance(y, tuple) and len(y) == 3):
                yield v, mode, t, x
                yield from captured(t)
        elif x.op == "bind":
            for y in x.a:
                for t in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(t, Term):
                        yield "bound", "copy", t, x
                        yield from captured(t)
        else:
            for y in x.a:
                yield from captured(y)
    elif isinstance(x, tuple):
        for y in x:
            yield from captured(y)


def callbacks(c, F_):
    n = 0
    for f in F_.N.fs:
        if "closure" not in f and not has_lambda(f["body"]):
            continue
        I = F_.N.summary(f)
        bad = False
        for e in I.events:
            v = getattr(e, "val", None)
            if not isinstance(v, Term) or e.kind not in ("return", "write"):
                continue
            if e.kind == "return" and e.depth != 2 or e.kind == "write" and e.root[0] in ("v", "tmp"):
                continue
            for var, mode, t, cl in captured(v):
                n += 1
                if t.op == "addr" and t.a[0][0] in ("v", "tmp"):
                    bad = True
                    nm = str(t.a[0][1]).split("@")[0]
                    c.viol("callback:%s:%s" % (f["name"].replace("gbdt::", ""), nm), "%s: the function value %s refers to %s, which does not outlive the call" % (
                        f["name"].replace("gbdt::", ""), "returned" if e.kind == "return" else "stored", nm if nm else "a temporary"), "src/%s:%s" % (e.file, e.line))
        if not bad:
            c.ok("callback:" + f["name"].replace("gbdt::", ""), "src/%s:%s" % (f["file"], f["l"]))
    c.counts["captures_checked"] = n


def has_lambda(b):
    todo = [b]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "lambda" or "bind" in str(x.get("fn", ""))[:40]:
                return True
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return False
