"""C45: objects handed to Python own what they refer to, or are registered to keep its owner alive, and no bound operation
destroys it under them."""
import re
from ..core import *
from .c40 import Native, nodes
from .c26 import derived


def pointee(t):
    """Class a non-owning member of type t refers to; None for owning members."""
    t = (t or "").strip()
    m = re.match(r"(?:const )?([\w:]+)(?: const)?\s*[*&]+(?: const)?$", t)
    if m:
        return m.group(1)
    m = re.match(r"(?:const )?(?:std::)?(?:weak_ptr|reference_wrapper|basic_string_view)<(?:const )?([\w:]+)", t)
    if m:
        return m.group(1)
    return None


def borrowed(c, cls, path=(), seen=()):
    """[(path, class referred to)] for the members of cls, and of what it holds by value, that do not own what they refer to."""
    r = c.db["recs"].get(cls) or {}
    out = []
    if cls in seen or not cls.startswith("gbdt::") or r.get("file", "").endswith((".pb.h",)):
        return out
    for b in r.get("bases") or []:
        out += borrowed(c, b if isinstance(b, str) else b["name"], path, seen + (cls,))
    for x in r.get("fields") or []:
        if x.get("static"):
            continue
        p = pointee(x.get("t"))
        if p:
            out.append((path + ((".", x["name"]),), p))
        elif x.get("rec", "").startswith("gbdt::") and x.get("t", "").replace("const ", "") == x["rec"]:
            out += borrowed(c, x["rec"], path + ((".", x["name"]),), seen + (cls,))
    return out


def keeps(reg):
    """Pairs (nurse, patient) of the keep_alive policies of a registration, and the names of its return value policies."""
    ka, pol = set(), set()
    for a in reg.get("raw") or []:
        for y in nodes(a):
            for s in (str(y.get("t") or ""), str(y.get("name") or "")):
                for m in re.finditer(r"keep_alive<\s*(\d+)U?L*\s*,\s*(\d+)U?L*\s*>", s):
                    ka.add((int(m.group(1)), int(m.group(2))))
                m = re.search(r"return_value_policy::(\w+)", s)
                if m:
                    pol.add(m.group(1))
    return ka, pol


def origins(I, v, g, this_params):
    """[(guard, origin)] of a pointer value; origin: None (refers to nothing that can die first), 'this', ('arg', k), '?'."""
    while v.op in ("conv", "cast") and v.a and isinstance(v.a[0], Term):
        v = v.a[0]
    if v.op == "ite":
        return origins(I, v.a[1], band(g, v.a[0]), this_params) + origins(I, v.a[2], band(g, bnot(v.a[0])), this_params)
    if v is NULL or v.op == "null" or g == 0:
        return []
    if v.op == "addr":
        r = v.a[0]
        if r[0] in ("g", "static"):
            return [(g, None)]
        if r[0] == "heap":
            # destroyed with whatever owns it; an object nothing owns lives on
            return [(g, "?")]
    return [(g, rooted(I, v, this_params, 0))]


def rooted(I, v, this_params, d):
    if d > 12:
        return "?"
    out = set()
    if v.op == "ret":
        for e in I.events:
            if e.kind in ("call", "icall") and getattr(e, "ret", None) is v:
                t = getattr(e, "this", None)
                if t is not None:
                    out.add(rooted(I, t, this_params, d + 1))
                for x in getattr(e, "args", None) or ():
                    if isinstance(x, Term) and (pointee(TYPE.get(x) or "") or x.op == "addr"):
                        o = rooted(I, x, this_params, d + 1)
                        if o not in ("?", None):
                            out.add(o)
    else:
        for t in subterms(v):
            if t.op == "init" and t.a[0] == ("this",) or t.op == "addr" and t.a[0] == ("this",):
                out.add("this")
            elif t.op == "init" and t.a[0][0] == "arg" and t is v:
                out.add(t.a[0])
            elif t.op in ("sel", "*", "init", "addr") and any(x[0] == "arg" for x in [t.a[0]] if isinstance(x, tuple)):
                out.add(("arg", t.a[0][1]) if isinstance(t.a[0], tuple) else "?")
            elif t.op == "ret":
                out.add(rooted(I, t, this_params, d + 1))
    if "this" in out:
        return "this"
    out -= {"?", None}
    return out.pop() if len(out) == 1 else "?"


def check(c):
    c.rules.append("every class registered with pybind11: its members (recursively) that refer to something without owning it are enumerated; a bound function that returns such an object by value is "
                   "evaluated, and where the reference leads into the object it was called on (or into an argument) the registration must keep that object alive (keep_alive<0, k>); "
                   "a bound function returning a pointer or reference to a registered class needs a policy that does not take ownership; no bound operation of the owner may destroy "
                   "or replace what such a reference leads to")
    N = Native(c)
    py = {v: k for k, v in N.pyname.items()}
    weak = {}
    for cpp in sorted(N.pyname):
        b = borrowed(c, cpp)
        if b:
            weak[cpp] = b
        c.ok("%s:members" % N.pyname[cpp], N.where.get(N.pyname[cpp], ""), "%d members refer to something they do not own" % len(b))
    owners = {}
    n = 0
    for cls in sorted(N.cls, key=str):
        for name, reg in sorted(N.cls[cls].items()):
            if reg is None:
                continue
            n += 1
            ka, pol = keeps(reg)
            where = reg["where"]
            full = "%s.%s" % (cls or "module", name)
            if name == "__init__":
                continue
            rt = (reg["rt"] or "").strip()
            target = re.match(r"(?:const )?([\w:]+)(?: const)?\s*([*&]*)$", rt)
            rcls = target and (target.group(1) if target.group(1) in N.pyname else "gbdt::" + target.group(1) if "gbdt::" + target.group(1) in N.pyname else None)
            f = c.db["fns"].get(reg["fn"]) or {}
            if f.get("body") is None or not rcls:
                continue
            if target.group(2):
                returned(c, full, f, reg, rcls, ka, pol, where)
            elif rcls in weak:
                handed(c, N, full, cls, f, rcls, weak[rcls], ka, where, owners)
    for cls, reg in N.inits:
        ka, pol = keeps(reg)
        cpp = py.get(cls)
        for k, t in enumerate(reg["ps"]):
            p = pointee(t)
            if cpp in weak and p in N.pyname and any(p == q for _, q in weak[cpp]):
                c.decide((1, k + 2) in ka, "%s.__init__:argument" % cls, "a %s keeps referring to the %s it is made from, which Python may destroy before it" % (cls, N.pyname[p]), reg["where"])
    c.counts["registrations"] = n
    c.counts["borrowing_classes"] = len(weak)
    for owner in sorted(owners):
        for name, reg in sorted(N.cls[N.pyname[owner]].items()):
            f = c.db["fns"].get(reg["fn"] if reg else None) or {}
            if f.get("body") is not None and not f.get("const") and name != "__init__":
                destroys(c, N.pyname[owner], owner, name, f, owners[owner], reg["where"])


def returned(c, full, f, reg, rcls, ka, pol, where):
    """A pointer or reference to a registered class: what pybind11 does with it by default is right only for a new object."""
    ptr = "*" in (reg["rt"] or "")
    I = evaluated(c, f, full + ":returned", where)
    if I is None:
        return
    for g, o in origins(I, I.value, 1, ()):
        key = full + ":returned"
        if o == "this" or isinstance(o, tuple):
            fine = pol & {"reference_internal", "copy"} or "reference" in pol and ka or not ptr and not pol
            c.decide(bool(fine), key, "%s returns a %s inside the object it was called on, which Python then %s" % (full, rcls, "owns and deletes" if not pol & {"reference"} else "uses after the object is gone"), where)
        elif o is None:
            c.decide(bool(pol & {"reference", "copy", "reference_internal"}) or not ptr, key, "%s returns a static %s, which Python then owns and deletes" % (full, rcls), where)
        else:
            c.undecided(key, where, show(I.value)[:200])


def evaluated(c, f, key, where, **kw):
    try:
        return c.enter(f, **kw)
    except (IN.Limit, RecursionError, KeyError, TypeError, AttributeError) as x:
        c.undecided(key, where, "%s: %s" % (type(x).__name__, x))


def method(f):
    return (f.get("rec") or "").startswith("gbdt::") and "lambda" not in f.get("id", "") and "operator()" not in f["name"] and not f.get("static")


def handed(c, N, full, cls, f, rcls, members, ka, where, owners):
    key = full + ":owner"
    I = evaluated(c, f, key, where, opaque={"!pred": lambda g: None if (g.get("file") or "").startswith("python/") else "effect"})
    if I is None:
        return
    for path, p in members:
        v = I.value
        try:
            for x in path:
                v = sel(v, x)
        except Exception as x:
            c.undecided(key, where, str(x)[:200])
            continue
        os_ = origins(I, v, 1, ())
        if not os_:
            c.ok(key, where, "never refers to anything")
        for g, o in os_:
            r = EV.search(g, seed=c.seed)[0]
            if r == "none":
                continue
            if o is None:
                c.ok(key, where)
                continue
            if o == "?":
                c.undecided(key, where, show(v)[:300])
                continue
            k = 1 if o == "this" else o[1] + (2 if method(f) else 1)
            own = f.get("rec") if o == "this" else pointee(f["params"][o[1]]["t"])
            c.decide((0, k) in ka, key, "the %s that %s returns refers to a %s inside %s, and nothing keeps that alive: once Python drops it the column is used after it was destroyed"
                     % (N.pyname[rcls], full, p.split("::")[-1], "the object it was called on" if k == 1 and cls else "argument %d" % k), where)
            if own in N.pyname:
                owners.setdefault(own, set()).add(p)


def holders(c, cls, targets, seen=()):
    """[(path from an object of cls, "ptr"|"map")] of the owning members through which an object of the target classes is reached."""
    out = []
    r = c.db["recs"].get(cls) or {}
    if cls in seen:
        return out
    for b in r.get("bases") or []:
        out += holders(c, b if isinstance(b, str) else b["name"], targets, seen + (cls,))
    for x in r.get("fields") or []:
        t = (x.get("t") or "").replace("const ", "")
        m = re.match(r"std::(unique_ptr|shared_ptr)<([\w:]+)>$", t)
        if m:
            if any(derived(c, p, m.group(2)) for p in targets):
                out.append((((".", x["name"]),), "ptr"))
            for q, k in holders(c, m.group(2), targets, seen + (cls,)):
                out.append((((".", x["name"]), "*") + q, k))
            if any(True for q in holders(c, m.group(2), targets, seen + (cls,))):
                out.append((((".", x["name"]),), "ptr"))
            continue
        m = re.search(r"(?:unique_ptr|shared_ptr)<([\w:]+)>", t)
        if m and re.match(r"std::(unordered_map|map|vector|list|deque)<", t) and any(derived(c, p, m.group(1)) for p in targets):
            out.append((((".", x["name"]),), "map" if "map<" in t[:20] else "seq"))
    return out


def destroys(c, pycls, owner, name, f, targets, where):
    full = "%s.%s" % (pycls, name)
    key = full + ":lifetime"
    I = evaluated(c, f, key, where)
    if I is None:
        return
    what = "/".join(sorted(p.split("::")[-1] for p in targets))
    for path, kind in holders(c, owner, targets):
        v0, root, acc = mk("init", ("this",)), ("this",), ()
        for x in path:
            if x == "*":
                v0 = mk("sel", v0, acc[0]) if len(acc) == 1 else None
                if v0 is None:
                    break
                root, acc = ("*", v0), ()
                v0 = mk("init", root)
            else:
                acc = acc + (x,)
        if v0 is None:
            continue
        old = mk("init", root)
        for x in acc:
            old = sel(old, x)
        TYPE.setdefault(old, "")
        now = I.qread(I.addr(root, acc))
        lost(c, I, full, key, old, now, kind, what, where)
    else:
        if not any(o[0] == key for o in c.obls):
            c.ok(key, where)


def lost(c, I, full, key, old, now, kind, what, where):
    def walk(v, g):
        if v.op == "ite":
            walk(v.a[1], band(g, v.a[0]))
            walk(v.a[2], band(g, bnot(v.a[0])))
            return
        if v is old or g == 0 or key in [x["key"] for x in c.viols]:
            return
        if kind == "ptr":
            c.disjoint(g, tobool(old), key, "%s destroys what is there although %s objects in Python still refer into it" % (full, what), where=where)
            return
        ops = set()
        for t in subterms(v):
            if t is old:
                continue
            ops.add(t.op)
        if "mdel" in ops or v.op in ("map0", "seq0"):
            c.never(g, key, "%s destroys columns although %s objects in Python still refer to them" % (full, what), where)
        elif any(t is old for t in subterms(v)):
            c.ok(key, where, "columns are only added")
        else:
            c.undecided(key, where, show(v)[:200])
    walk(now, 1)
