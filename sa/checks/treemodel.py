"""FitTreeToGradients extracted with the split search, partitioning and sampling left abstract."""
from ..core import *

OPAQUE = {"UniformSubsample": "effect", "FindBestSplit": "effect", "Partition": "effect"}
INTS = [0, 1, 1, 2, 3]


def pos(f, tail, notin=None, n=0):
    ks = [k for k, p in enumerate(f["params"]) if tail in p["t"] and (notin is None or notin not in p["t"])]
    if len(ks) <= n:
        raise Missing("parameter %s of %s" % (tail, f["name"]))
    return ks[n]


class Tree:
    def __init__(self, c):
        self.c = c
        f = self.f = c.fn("FitTreeToGradients")
        self.where = "src/%s:%s" % (f["file"], f["l"])
        I = self.I = c.enter(f, mem=True, opaque=OPAQUE)
        self.w = argval(f, pos(f, "function"))
        self.grad = argval(f, pos(f, "GradientData"))
        self.feats = argval(f, pos(f, "Column"))
        self.cfg = argval(f, pos(f, "Config"))
        self.gaddr = I.addr(("arg", pos(f, "GradientData")))
        ev = [e for e in I.events if e.kind == "call"]
        self.parts = [e for e in ev if e.fn.split("::")[-1] == "Partition"]
        self.finds = [e for e in ev if e.fn.split("::")[-1] == "FindBestSplit"]
        self.subs = [e for e in ev if e.fn.split("::")[-1] == "UniformSubsample"]
        self.rowsubs = [e for e in self.subs if e.args and mentions(e.args[0], lambda t: t is self.grad)]
        self.featsubs = [e for e in self.subs if e.args and mentions(e.args[0], lambda t: t is self.feats)]
        self.scores = [e for e in I.events if e.kind == "write" and e.path and e.path[-1] == (".", "score")]
        if not self.scores:
            self.scores = []

    def cut(self, t):
        """t with the results of abstract calls replaced by symbols."""
        m = {}
        for k, e in enumerate(self.parts + self.rowsubs):
            s = m[e.ret] = mk("sym", e.fn.split("::")[-1], k)
        return subst(t, m.get)

    def seq(self, v):
        """(size, k -> element) of a sample container: a vector or a slice value."""
        c, I = self.c, self.I
        if v.op in ("ret", "sym") and v.a[0].endswith("UniformSubsample"):
            return size(v), lambda k: sel(v, ("[", k), "unsigned int")
        return c.on(I, "VectorSlice", "size", v), lambda k: I.read(c.on(I, "VectorSlice", "operator[]", v, [k]))

    def total(self, v, field):
        """Weighted total of a gradient field over a sample container."""
        n, at = self.seq(v)
        i = mk("idx", -9)
        k = at(i)
        TYPE.setdefault(k, "unsigned int")
        wk = mk("icall", self.w, (k,))
        TYPE.setdefault(wk, "float")
        g = sel(sel(self.grad, ("[", k)), (".", field), "double")
        return tsum(n, abstract(i, mul(wk, g)))

    def slice_of(self, path):
        """The samples of the node a score is written to: by the last child step of its path."""
        step = [e[1] for e in path if e[0] == "."]
        if "left_child" in step or "right_child" in step:
            side = [s for s in step if s in ("left_child", "right_child")][-1]
            return side
        return "root"
