"""Call graph of the extracted program (functions mentioned in a body: called, bound or captured)."""


def callees(f):
    out = set()
    todo = [f.get("body"), f.get("ctor"), f.get("inits")]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            for k in ("fn", "beginfn", "endfn", "dtor", "ctor"):
                if isinstance(x.get(k), str):
                    out.add(x[k])
            if isinstance(x.get("id"), str) and x.get("k") in ("fnref", "lambda"):
                out.add(x["id"])
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return out


def graph(db):
    g = db.get("_callgraph")
    if g is None:
        g = {i: {x for x in callees(f) if x in db["fns"]} for i, f in db["fns"].items()}
        for i, f in db["fns"].items():      # virtual calls reach the overriders
            for o in f.get("over") or []:
                if o in g:
                    g[o].add(i)
        db["_callgraph"] = g
    return g


def reach(db, f):
    g = graph(db)
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def recursive(db, below=None):
    """Ids of functions on a cycle (below: only those reachable from this function)."""
    g = graph(db)
    cand = reach(db, below) if below else set(g)
    return {x for x in cand if x in reach(db, x)}
