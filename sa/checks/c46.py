"""C46: nothing given to the native module from Python ends the process.

Every function and method the module registers is an entry. Below the entries, every place that ends
the process (CHECK and LOG(FATAL) of glog, abort, exit, terminate) is looked for along the call
graph. Where the way from the entry to the place can be interpreted, the condition under which it is
reached has to be impossible, i.e. the module has thrown before; where it leads through the scoring
threads or a recursion over the tree, a place that ends the process is reported as such.
"""
from ..core import *
from .. import callgraph as CG
from .c40 import Native, nodes

ENDS = ("abort", "exit", "_exit", "_Exit", "quick_exit", "std::abort", "std::exit", "std::terminate", "std::quick_exit")


def short(n):
    return n.split("::")[-1]


def check(c):
    c.rules.append("from every function the native module registers, every place that ends the process (fatal log messages, abort, exit, terminate) is looked for along the call graph; "
                   "the condition under which it is reached from the entry, interpreted through the functions in between, must be impossible; a place below the scoring threads or a "
                   "recursion is a violation named after the file it is in")
    c.notes.append("looking a column up twice within one call gives the same answer")
    fns = c.db["fns"]
    sites = {}
    for f in fns.values():
        if f.get("body") is None:
            continue
        for y in nodes(f["body"]):
            if y.get("k") == "ctor" and "LogMessageFatal" in (y.get("name") or "") + (y.get("t") or ""):
                sites.setdefault(f["id"], []).append(("a fatal log message", y.get("l")))
            elif y.get("k") == "call" and y.get("name") in ENDS:
                sites.setdefault(f["id"], []).append((y["name"], y.get("l")))
    N = Native(c)
    rec = CG.recursive(c.db)
    entries = []
    for cls in N.cls:
        for n, r in N.cls[cls].items():
            if r and r["fn"] in fns:
                entries.append(((cls + "." if cls else "") + n, fns[r["fn"]]))
    for cls, inits in inits_of(c, N):
        entries.append((cls + ".__init__", inits))
    g = CG.graph(c.db)
    below = {f: CG.reach(c.db, f) for f in fns}

    def fatal(f):
        return any(s in below[f] or s == f for s in sites)

    lookups = ("GetColumn", "GetStringColumn", "GetRawFloatColumn", "GetBucketizedFloatColumn")

    def inlined(h):
        if h.get("body") is None:
            return False
        if h["file"].startswith("python/"):
            return True
        return fatal(h["id"]) and h["id"] not in rec and not short(h["name"]) == "AddTreeScores"

    def mode(h):
        if h["name"].startswith("gbdt::DataStore::") and short(h["name"]) in lookups and not fatal(h["id"]):
            return "pure"
        if inlined(h):
            return None
        return "effect"

    done = set()
    for label, f in entries:
        R = below[f["id"]] | {f["id"]}
        hit = sorted(s for s in sites if s in R)
        where = "src/%s:%s" % (f["file"], f.get("l"))
        if not hit:
            c.ok("fatal:" + label, where, "nothing below it ends the process")
            continue
        inl, outer, todo = {f["id"]}, set(), [f["id"]]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in fns:
                    continue
                if inlined(fns[y]):
                    if y not in inl:
                        inl.add(y)
                        todo.append(y)
                else:
                    outer |= {y} | below[y]
        for s in hit:
            if s in outer:
                h = fns[s]
                for what, ln in sites[s]:
                    c.viol("fatal:" + h["file"], "%s can end the process: %s in %s is reached through code that no earlier test of the input can be shown to exclude"
                           % (label, what, h["name"]), "src/%s:%s" % (h["file"], ln))
                    done.add(s)
        if not any(s in inl for s in hit):
            continue
        try:
            I = c.enter(f, opaque={"!pred": mode})
        except Exception as e:      # the path cannot be followed
            c.undecided("fatal:" + label, where, str(e)[:200])
            continue
        for e in I.events:
            if e.kind == "die":
                c.never(e.pc, "fatal:" + label, "%s ends the process instead of raising an exception" % label,
                        "src/%s:%s" % (e.file, e.line))
        if not any(v["key"] == "fatal:" + label for v in c.viols):
            c.ok("fatal:" + label, where, "every place that ends the process is excluded by an exception before it")


def inits_of(c, N):
    out = []
    for cls, cpp in ((p, q) for q, p in N.pyname.items()):
        for f in c.db["fns"].values():
            if f.get("body") is not None and f.get("ctor") and (f.get("rec") or "").split("::")[-1] == cpp.split("::")[-1]:
                out.append((cls, f))
    return out
