"""C33: blocks of a multi-file text data set are appended in order."""
import random

from ..core import *
from .c22 import run
from .c32 import request, table, acceptable, text, content, same, shown, heading, names_of, pairs
from .c36 import Bad
from .tsvmodel import *


def check(c):
    c.rules.append("set-up, reading and hand-over are summarised and chained on generated lists of files: each file must be read once, only the first without its header line, the blocks handed over once each, "
                   "in file order and outside the reading tasks, every column finalised once after the last block, and the columns must hold the concatenation of the files' rows; what the reading tasks leave "
                   "behind must not depend on the order in which they finish")
    T = Tsv(c)
    T.load()
    run(c, "order of the blocks", T.where("load"), lambda: files(c, T))
    run(c, "completion order", T.where("load"), lambda: completion(c, T))
    run(c, "columns complete before the next block", T.where("load"), lambda: joined(c, T))


def files(c, T):
    N = 400 if c.tier == "thorough" else 80
    T.setup(), T.read(), T.process(), T.finalize()
    for it in range(N):
        r = random.Random("%s/f%d" % (c.seed, it))
        names = names_of(r)
        cfg, kinds = request(r, names)
        n = r.choice([1, 2, 2, 3, 3, 4])
        rs = [table(r, names, kinds, r.randint(0, 3)) for k in range(n)]
        fs = {"f%d" % k: text(r, rs[k], heading(r, names) if k == 0 else None) for k in range(n)}
        tsvs = ["f%d" % k for k in range(n)]
        at = "files %s, columns %s" % (", ".join("%r" % fs[t] for t in tsvs), ", ".join("%s as %s" % (n, KINDS[k][:-9]) for n, k in kinds.items()))
        code, state = T.sure("setup", at, lambda: T.do_setup("f0", cfg, fs))
        if code != 0:
            raise Bad("setup", "the column set-up fails (%s)" % at, T.where("setup"))
        fault = r.choice([None, None, None, "setup", "file", "process", "finalize", "none", "text"])
        if fault == "none":
            code, reads, handed, finals = T.do_load([], cfg, fs, state, 0)
            if code == 0:
                raise Bad("no files", "loading of no files at all succeeds", T.where("load"))
            continue
        broken = r.randrange(n)
        if fault == "file":
            broken = r.randrange(1, n) if n > 1 else 0
            if n > 1:
                del fs["f%d" % broken]
            else:
                fault = None
        if fault == "text":
            fs["f%d" % broken] += "\nq"
            rs[broken] = rs[broken] + [["q"]]
            if acceptable(rs[broken], names, kinds):
                fault = None
        code, reads, handed, finals = T.sure("load", at, lambda: T.do_load(tsvs, cfg, fs, state, 5 if fault == "setup" else 0, (lambda i: 3 if i == broken else 0) if fault == "process" else None,
                                                                         13 if fault == "finalize" else 0))
        if fault is not None:
            if code == 0:
                raise Bad("fault", "loading succeeds although %s (%s)" % ({"setup": "the column set-up failed", "file": "file %d is missing" % broken, "process": "appending block %d failed" % broken,
                                                                         "finalize": "the columns could not be finalised", "text": "a row of file %d is not acceptable" % broken}[fault], at), T.where("load"))
            continue
        if code != 0:
            raise Bad("fails", "loading fails although every row is in order (%s)" % at, T.where("load"))
        got = [vs[0][1] for th, vs, b in reads]
        if sorted(got) != sorted(tsvs):
            raise Bad("read", "the files read are %s (%s)" % (", ".join(got), at), T.where("load"))
        order = [b[0] if b else None for p, e, b in handed]
        if order != tsvs:
            raise Bad("order", "the blocks are handed to the columns in the order %s (%s)" % (order, at), "src/%s:%s" % (handed[0][1].file, handed[0][1].line) if handed else T.where("load"))
        if finals != 1:
            raise Bad("finalise", "the columns are finalised %d times (%s)" % (finals, at), T.where("load"))
        cols = {n[1]: EV.hk(p) for n, p in pairs(state["column_map_"])}
        have = {}
        for p, e, b in handed:
            for q, vs in T.do_process(state, b[1]):
                have.setdefault(q, []).extend(vs)
        for n, k in kinds.items():
            want = [x for t in rs for x in content(t, names, n, k)]
            if not same(have.get(cols[n], []), want):
                raise Bad("column", "column '%s' receives %s instead of %s (%s)" % (n, shown(have.get(cols[n], [])), shown(want), at), T.where("load"))
        fin = sorted(str(q) for q, vs in T.do_process(state, {}, "finalize"))
        if fin != sorted(str(q) for q in cols.values()):
            raise Bad("finalised", "of %d columns %d are finalised (%s)" % (len(cols), len(set(fin)), at), T.where("finalize"))
    return N


def inside(e, tasks):
    return e.tasks[:len(tasks)] == tasks


def completion(c, T):
    """Blocks are handed over outside the tasks, and tasks leave nothing behind whose order depends on when they finish."""
    f, I = T.load()
    n = 0
    own = {}
    for e in I.events:
        if e.kind == "write" and e.how == "init":
            own[e.root] = e.tasks
    for e in I.events:
        if e.kind == "call" and e.fn.split("::")[-1] == "ProcessBlock":
            n += 1
            if e.tasks:
                raise Bad("task", "blocks are handed to the columns by the tasks that read them, in the order in which they finish", "src/%s:%s" % (e.file, e.line))
        if e.kind == "write" and e.tasks and e.how in ("append", "push", "insert", "emplace") and not own.get(e.root, ()):
            n += 1
            ix = {IN.LOOPS[l].idx for l in e.loops}
            if not any(s[0] == "[" and ix & set(subterms(s[1])) for s in e.path):
                raise Bad("shared", "the tasks append to what they share, so that its order is the order in which they finish", "src/%s:%s" % (e.file, e.line))
    return n


def subterms(t, seen=None):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in out:
                continue
            out.add(x)
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def joined(c, T):
    """Tasks adding to columns are waited for before the function that started them ends."""
    n = 0
    for which in ("process", "finalize"):
        f, I = getattr(T, which)()
        for i, e in enumerate(I.events):
            if e.kind != "call" or not e.tasks:
                continue
            n += 1
            pool = e.tasks[0][1]
            if not any(j.kind == "join" and j.pool is pool for j in I.events[i:]):
                raise Bad("join", "tasks that change columns are still running when %s returns" % f["name"], "src/%s:%s" % (e.file, e.line))
    return n
