"""Widths: row numbers, codes and counts keep at least 32 bits, sums are kept in double.

A type-level analysis of the functions a check went through and of the classes they belong to. It complements the
interpretation, whose integers are unbounded and whose reals are exact. The 8 and 16 bit columns themselves (functions and
members that hold a vector of the narrow type in the column classes) are what C13 decides.
"""
import re
from . import callgraph as CG

SMALL = r"(?:unsigned char|unsigned short|short|signed char|u?int(?:8|16)(?:_t)?)"
CONT = re.compile(r"\b(?:unordered_set|unordered_map|set|map|multimap|multiset|list|deque|queue|stack|pair|tuple|array|VectorSlice|vector)<(?:[^<>]*, ?)?(?:const )?" + SMALL + r"(?:, [^<>]*)?>")
VEC = re.compile(r"\bvector<" + SMALL + ">")


def bare(t):
    return re.sub(r"\b(const|volatile)\b", "", t or "").replace("&", "").strip()


def small(t):
    return re.fullmatch(SMALL, bare(t)) is not None


def wide(t):
    return bare(t) in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "size_t", "uint", "uint32", "uint64")


def nodes(x):
    """(expression or declaration, loops around it, expressions around it)."""
    todo = [(x, 0, ())]
    while todo:
        y, n, up = todo.pop()
        if isinstance(y, dict):
            if y.get("k") or ("id" in y and "t" in y and not y.get("s")):
                yield y, n, up
                up = (y,) + up[:3]
            if y.get("s") in ("for", "while", "do") or "beginfn" in y:
                n += 1
            todo += [(v, n, up) for v in y.values() if isinstance(v, (dict, list))]
        elif isinstance(y, list):
            todo += [(v, n, up) for v in y]


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def const(e):
    e = strip(e)
    return not isinstance(e, dict) or e.get("k") in ("int", "bool", "char", "float", "enum", "sizeof")


def floaty(e):
    """Every value that goes into e is a float already (or a literal)."""
    e = strip(e)
    if const(e):
        return True
    if not isinstance(e, dict):
        return True
    if e.get("k") in ("bin", "un", "cond"):
        return all(floaty(v) for k, v in e.items() if isinstance(v, dict) and not (e["k"] != "bin" and k in ("c", "cond")))
    return bare(e.get("t")) == "float" or bare(e.get("t")) == "bool"


def scan(c, reals=True):
    fns, recs = c.db["fns"], c.db["recs"]
    cls = set()
    todo = set(c.functions)
    for i in c.functions:       # and the methods they call directly
        if i in fns:
            todo |= {j for j in CG.graph(c.db)[i] if fns[j].get("rec")}
    for i in sorted(todo):
        f = fns.get(i)
        if f is None or f.get("body") is None:
            continue
        if f.get("rec"):
            cls.add(f["rec"])
        encoder = f["file"].startswith("data_store/column") and (
            VEC.search(f.get("rt") or "") or any(VEC.search(p.get("t") or "") for p in f.get("params") or [])
            or VEC.search(str(f.get("targs") or "")))
        name = f["name"]
        for y, n, up in nodes([f["body"], f.get("inits")]):
            k = y.get("k")
            where = "src/%s:%s" % (f["file"], y.get("l"))
            if k == "cast" and y.get("ck") == "IntegralCast" and small(y.get("t")) and wide(y.get("ft")) and not const(y.get("e")) and not encoder:
                c.viol("width:" + name, "%s cuts a value of type %s down to %s" % (name, y.get("ft"), bare(y["t"])), where)
            elif (k == "un" and (y.get("op") or "")[:2] in ("++", "--") or k == "cassign" and y.get("op") in ("+", "-")) and small((y.get("a") or y.get("e") or {}).get("t")):
                c.viol("width:" + name, "%s counts in a variable of type %s" % (name, bare((y.get("a") or y["e"]).get("t"))), where)
            elif (k is None or k == "var") and CONT.search(y.get("t") or "") and not (
                    VEC.search(y["t"]) and f["file"].startswith("data_store/column")):
                c.viol("width:" + name, "%s keeps values in %s" % (name, y["t"]), where)
            elif reals and k == "cassign" and y.get("op") in ("+", "-") and bare((y.get("a") or {}).get("t")) == "float" and (n or (y.get("a") or {}).get("k") != "var"):
                c.viol("width:" + name, "%s accumulates a sum in single precision" % name, where)
            elif reals and k == "cast" and y.get("ck") == "FloatingCast" and bare(y.get("t")) == "float" and bare(y.get("ft")) == "double" and not floaty(y.get("e")):
                if any(u.get("k") in ("mcall", "call") and pbset(fns, u) for u in up):
                    continue
                c.viol("width:" + name, "%s rounds a double to single precision" % name, where)
    for r in sorted(cls):
        d = recs.get(r) or {}
        for x in d.get("fields") or []:
            t = x.get("t") or ""
            if (CONT.search(t) or small(t)) and not (VEC.search(t) and (d.get("file") or "").startswith("data_store/column")):
                c.viol("width:%s::%s" % (r, x["name"]), "%s::%s has only the type %s" % (r, x["name"], t), "src/%s:%s" % (d.get("file"), x.get("l") or d.get("l")))
    c.rules.append("in the functions analysed and the members of their classes no row number, code or count is converted to, counted in or kept in an integer type below 32 bits outside the column encoding"
                   + ("; no sum is accumulated in, and no computed double rounded to, single precision except in the setters of the protocol buffer" if reals else ""))


def pbset(fns, u):
    n = (u.get("name") or "").split("::")[-1]
    return n.startswith(("set_", "add_"))
