"""C39: a finalized column never changes again."""
import random
import re

from ..core import *
from .c22 import run
from .c36 import Bad
from .colmodel import *
from .c13 import guard
from .. import interp as IN

READERS = {"StringColumn": ["code", "get_row_string"], "BucketizedFloatColumn": ["code", "get_row_min", "get_row_max"], "RawFloatColumn": ["operator[]"]}
WHOLE = {"StringColumn": ["size", "max_int", "name"], "BucketizedFloatColumn": ["size", "max_int", "name"], "RawFloatColumn": ["size", "name"]}
ENTRY = {"StringColumn": ["get_cat_string"], "BucketizedFloatColumn": ["get_bucket_min", "get_bucket_max"], "RawFloatColumn": []}
FAMILY = ["Column", "IntegerizedColumn", "StringColumn", "BucketizedFloatColumn", "RawFloatColumn"]


def check(c):
    c.rules.append("every public operation of the column classes that may modify them (all non-const methods the classes declare or inherit) is chained after Add and Finalize in one "
                   "interpretation, once, twice and in pairs; every reader (rows, codes, dictionary, bucket bounds, sizes) must give what it gave before, and an error must be recorded")
    c.rules.append("no public data members, mutable members, or access to members by non-const reference or pointer from a const or public method of the column classes and data stores; "
                   "no cast in the library takes const off a column")
    for cls in READERS:
        M = Col(c, cls)
        run(c, cls, M.where("Finalize"), lambda: guard(M, lambda: frozen(c, M)))
    run(c, "access", "src/data_store/column.h", lambda: access(c))


def mutators(c, cls):
    """Names of the public non-const methods an object of the class can be asked to run."""
    out, todo = [], ["gbdt::" + cls]
    while todo:
        r = todo.pop(0)
        d = c.db["recs"].get(r) or {}
        for m in d.get("methods") or []:
            if m.get("acc") == "public" and not (m.get("const") or m.get("ctor") or m.get("dtor") or m.get("static") or m.get("implicit")) and not m["name"].startswith("operator="):
                if m["name"] not in out:
                    out.append(m["name"])
        todo += [b if isinstance(b, str) else b["name"] for b in d.get("bases") or []]
    return out


def frozen(c, M):
    ms = mutators(c, M.cls)
    if not {"Add", "Finalize"} <= set(ms):
        raise Missing("Add and Finalize of " + M.cls)
    seqs = [(m,) for m in ms] + [(a, b) for a in ms for b in ms]
    n = 0
    for it in range(len(seqs) * (4 if c.tier == "thorough" else 1)):
        seq = seqs[it % len(seqs)]
        for k in range(3):
            r = random.Random("%s/z%d/%d" % (c.seed, it, k))
            if M.cls == "StringColumn":
                xs = [r.choice(["a", "b", "__missing__", "zz"]) for _ in range(r.randint(0, 5))]
                more = [r.choice(["a", "new", "__missing__", "q"]) for _ in range(r.randint(1, 3))]
            else:
                xs, more = floats(r, r.randint(0, 6), 4), floats(r, r.randint(1, 3), 3)
            x = M.construct(n=r.choice([1, 2, 5]))
            x = M.run("Add", x, xs)
            more = [value(v) for v in more]
            M.at = "%s added, finalized, then %s" % (short(xs), " and ".join(seq))
            before, after = ("Finalize",), ("Finalize",) + seq
            look = lambda q, a, i=None: M.ask(q, x, i, after=a, data=more)
            where = M.where(seq[-1])
            if EV.num_(look("status", before)) != 0:
                raise EV.Unknown("Finalize fails (%s)" % M.at)
            if EV.num_(look("status", after)) == 0:
                raise Bad("recorded", "%s: nothing is recorded as an error when a finalized column is changed (%s)" % (M.cls, M.at), where)
            w0 = {q: look(q, before) for q in WHOLE[M.cls]}
            rows0 = {(q, i): look(q, before, i) for q in READERS[M.cls] for i in range(len(xs))}
            top = int(EV.num_(w0.get("max_int", F(0))))
            ent0 = {(q, i): look(q, before, i) for q in ENTRY[M.cls] for i in range(top)}
            try:
                w1 = {q: look(q, after) for q in WHOLE[M.cls]}
                for q in w0:
                    if not alike(w0[q], w1[q]):
                        raise Bad("changed", "%s: %s changes from %s to %s (%s)" % (M.cls, q, text(w0[q]), text(w1[q]), M.at), where)
                for (q, i), v in list(rows0.items()) + list(ent0.items()):
                    g = look(q, after, i)
                    if not alike(v, g):
                        raise Bad("changed", "%s: %s(%d) changes from %s to %s (%s)" % (M.cls, q, i, text(v), text(g), M.at), where)
            except EV.Stuck as u:
                raise Bad("changed", "%s: an element that could be read before is gone (%s; %s)" % (M.cls, u, M.at), where)
            n += 1
    return n


def alike(a, b):
    return a == b or EV.isnanv(a) and EV.isnanv(b)


def text(x):
    return x[1] if isinstance(x, tuple) and x[:1] == ("str",) else "missing" if EV.isnanv(x) else str(x)


def modifiable(t):
    """A type through which the thing referred to may be modified: T& or T* with T not const."""
    t = t.strip()
    if t.endswith("*const"):
        t = t[:-5].strip()
    return t[-1:] in "&*" and not t.startswith("const ") and " const " not in t


def iscolumn(t):
    return any(w in t for w in ("gbdt::" + k for k in FAMILY))


def access(c):
    n = 0
    for cls in FAMILY + ["IntegerizedColumn::IntegerCol", "DataStore"]:
        r = c.db["recs"].get("gbdt::" + cls)
        if r is None:
            raise Missing("class " + cls)
        where = "src/%s" % r.get("file", "data_store/column.h")
        for f in r.get("fields") or []:
            n += 1
            if f.get("acc") == "public":
                raise Bad("field", "%s::%s is a public data member" % (cls, f["name"]), "%s:%s" % (where, f.get("l")))
            if f.get("mut") or f.get("mutable"):
                raise Bad("mutable", "%s::%s is mutable" % (cls, f["name"]), "%s:%s" % (where, f.get("l")))
        for m in r.get("methods") or []:
            if m.get("acc") != "public" or m.get("ctor") or m.get("dtor") or m["name"].startswith("operator=") or m.get("static"):
                continue
            n += 1
            t = m.get("rt", "")
            inner = re.findall(r"(?:const )?gbdt::\w*Column(?:::\w+)? [*&]", t)
            if modifiable(t) or any(not x.startswith("const ") for x in inner):
                raise Bad("handed out", "%s::%s gives its caller a %s" % (cls, m["name"], t), where)
    for f in c.db["fns"].values():
        if f.get("body") is None:
            continue
        for e in exprs(f["body"]):
            if iscolumn(e.get("unconst", "")):
                raise Bad("const cast", "%s takes const off a %s" % (f["name"], e["unconst"]), "src/%s:%s" % (f["file"], e.get("l")))
            if e.get("k") == "cast" and e.get("explicit") and iscolumn(e.get("ft", "")) and iscolumn(e.get("t", "")):
                n += 1
                a, b = e["ft"], e["t"]
                if a.startswith("const ") and not b.startswith("const ") and not (b[-1:] not in "&*" and not e.get("lv")):
                    raise Bad("const cast", "%s casts %s to %s" % (f["name"], a, b), "src/%s:%s" % (f["file"], e.get("l")))
    c.counts["access_paths"] = n
    return n


def exprs(x):
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from exprs(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from exprs(v)
