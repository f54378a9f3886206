"""Partition extracted once and interpreted over abstract columns, splits and sample sets."""
import random
from ..core import *
from .splitmodel import enum

OPAQUE = {"IntegerizedColumn::IntegerCol::operator[]": "pure", "BucketizedFloatColumn::get_row_max": "pure", "BucketizedFloatColumn::get_row_min": "pure",
          "BucketizedFloatColumn::get_bucket_max": "pure", "BucketizedFloatColumn::get_bucket_min": "pure", "StringColumn::get_cat_index": "effect",
          "StringColumn::get_cat_string": "pure", "StringColumn::get_row_string": "pure", "Column::type": "pure", "Column::name": "pure",
          "IntegerizedColumn::max_int": "pure", "BucketizedFloatColumn::max_int": "pure", "StringColumn::max_int": "pure", "IntegerizedColumn::size": "pure"}
F = Fraction


class Part:
    def __init__(self, c):
        self.c = c
        fs = [x for x in c.find("Partition") if x["params"] and x["params"][0]["t"].replace("gbdt::", "") == "const Column *"]
        if len(fs) != 1:
            raise Missing("Partition(const Column*, ...)")
        f = self.f = fs[0]
        self.where = "src/%s:%s" % (f["file"], f["l"])
        I = self.I = c.enter(f, mem=True, opaque=OPAQUE)
        self.pc = I.st.pc
        self.ks = next(k for k, p in enumerate(f["params"]) if "VectorSlice" in p["t"])
        self.kp = next(k for k, p in enumerate(f["params"]) if "Split" in p["t"])
        s = argval(f, self.ks)
        self.arg = s
        self.begin, self.n = c.on(I, "VectorSlice", "begin", s), c.on(I, "VectorSlice", "size", s)
        self.root = ("*", self.begin)
        self.mem = I.memval(self.root)
        v = I.value
        self.parts = []
        for side in ("first", "second"):
            x = sel(v, (".", side))
            self.parts.append((c.on(I, "VectorSlice", "begin", x), c.on(I, "VectorSlice", "size", x)))
        self.types = {k: enum(c, k) for k in ("kStringColumn", "kBucketizedFloatColumn", "kRawFloatColumn")}

    def run(self, kind, n):
        """Yields (case, left rows, right rows, final memory) of n interpretations with a column of this kind."""
        for s in range(n):
            m = Case("%s/%s/%d" % (self.c.seed, kind, s), kind, self)
            env = EV.Env("p%s" % s)
            env.sem = m.sem
            env.steps = 10 ** 6
            b0 = EV.ev(self.begin, env, want="int")
            mem = EV.ev(self.mem, env)
            if not isinstance(mem, list):
                raise EV.Unknown("memory of the slice")
            out = []
            for b, k in self.parts:
                lo, ln = EV.num_(EV.ev(b, env, want="int")) - b0, EV.num_(EV.ev(k, env, want="int"))
                out.append((int(lo), int(ln)))
            yield m, out, [int(x) for x in mem]


class Case:
    def __init__(self, seed, kind, P):
        r = random.Random("q%s" % seed)
        self.kind, self.P = kind, P
        n = r.choice([0, 1, 2, 3, 3, 4, 5])
        rows = 8
        self.rows = r.sample(range(rows), n)
        self.after = [r.randrange(rows) for _ in range(2)]
        ncode = r.choice([2, 3, 4])
        self.code = [r.randrange(ncode) if r.random() < .75 else 0 for _ in range(rows)]
        # buckets 1.. ascending
        x = F(r.randint(-3, 3))
        self.lo, self.hi = {}, {}
        for k in range(1, ncode):
            self.lo[k] = x
            x += r.choice([0, 0, 1])
            self.hi[k] = x
            x += r.choice([F(1), F(1, 2), F(2)])
        b = list(self.hi.values()) + list(self.lo.values())
        self.thr = r.choice(b + [x - F(1, 4) for x in b] + [x + F(1, 4) for x in b] + [F(-9), F(9)])
        self.mright = r.random() < .5
        names = ["s%d" % k for k in range(ncode)]
        self.dict = {("str", nm): k for k, nm in enumerate(names)}
        self.internal = r.sample(range(ncode), r.randint(1, ncode)) if r.random() < .5 else []
        self.cats = [("str", x) for x in r.sample(names + ["unknown", "other"], r.randint(0, 3))]
        if self.internal and r.random() < .7:
            self.cats = []
        self.leftcodes = set(self.internal) if self.internal else {self.dict[x] for x in self.cats if x in self.dict}
        if self.internal and self.cats:
            self.cats = [x for x in self.dict if self.dict[x] in self.leftcodes]    # both present: they denote the same categories

    def left(self, row):
        k = self.code[row]
        if self.kind == "kStringColumn":
            return k in self.leftcodes
        return not self.mright if k == 0 else self.hi[k] < self.thr

    def describe(self):
        if self.kind == "kStringColumn":
            return "rows %s with categories %s, listed %s%s" % (self.rows, [self.code[x] for x in self.rows], sorted(self.leftcodes),
                                                              "" if self.internal else " (by name %s)" % [x[1] for x in self.cats])
        return "rows %s with buckets %s (ranges %s), threshold %s, missing to the %s" % (
            self.rows, [self.code[x] or "missing" for x in self.rows], ["%s:[%s,%s]" % (k, self.lo[k], self.hi[k]) for k in self.lo], self.thr, "right" if self.mright else "left")

    def sem(self, env, k):
        op = k[0]
        if op == "init":
            r = k[1]
            if r == EV._k(self.P.root, env, {}):
                return [F(x) for x in self.rows + self.after]
            if r == ("arg", self.P.kp):
                s = self.kind == "kStringColumn"
                return {"gain": F(1), "feature": ("str", "f"), "has_cat_split": s, "has_float_split": not s,
                        "float_split": {"threshold": self.thr, "missing_to_right_child": self.mright},
                        "cat_split": {"internal_categorical_index": [F(x) for x in self.internal], "category": list(self.cats)}}
        if op == "sym" and k[1] == "arg" and k[2] == self.P.ks:
            return {"begin_": F(0), "end_": F(len(self.rows))}
        if op == "ret" and isinstance(k[1], str):
            nm, a = k[1], k[2]
            if nm.endswith("IntegerCol::operator[]"):
                return F(self.code[int(a[-1])])
            if nm.endswith("get_row_max") or nm.endswith("get_row_min"):
                q = self.code[int(a[-1])]
                return float("nan") if q == 0 else (self.hi if nm.endswith("max") else self.lo)[q]
            if nm.endswith("get_bucket_max") or nm.endswith("get_bucket_min"):
                q = int(a[-1])
                return float("nan") if q == 0 else (self.hi if nm.endswith("max") else self.lo)[q]
            if nm.endswith("get_cat_index"):
                return next((x for x in a if isinstance(x, tuple) and x[0] == "str"), None) in self.dict
            if nm.endswith("get_cat_string"):
                return next((x for x, q in self.dict.items() if q == int(a[-1])), None)
            if nm.endswith("get_row_string"):
                return next((x for x, q in self.dict.items() if q == self.code[int(a[-1])]), None)
            if nm.endswith("Column::type"):
                return F(self.P.types[self.kind])
            if nm.endswith("::max_int"):
                return F(max(self.code) + 1)
            if nm.endswith("IntegerizedColumn::size"):
                return F(len(self.code))
        if op == "out" and str(k[1]).endswith("get_cat_index"):
            # the code written by this lookup: evaluate the name looked up
            e = next(x for x in self.P.I.events if x.kind == "call" and x.ret.op == "ret" and len(x.ret.a) > 2 and x.ret.a[2] == k[2])
            sv = dict(env.dyn)
            for l, v in zip(e.loops, k[4]):
                env.dyn[IN.LOOPS[l].idx] = F(v)
            name = EV.ev(e.args[0], env)
            env.dyn = sv
            return F(self.dict[name]) if name in self.dict else k[5] if isinstance(k[5], (int, F)) else F(77)
        return None
