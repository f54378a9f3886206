"""The split search, extracted once and interpreted over abstract histograms.

FindBestSplit is summarised with the public Histogram and column accessors left uninterpreted.  The
resulting value graph (a fold over the histogram entries) is then compared with the definition of a
best split under interpretations of those accessors: a finite family of histograms."""
import random
from ..core import *

OPAQUE = {"Histogram::size": "pure", "Histogram::data": "pure", "Histogram::value": "pure", "Histogram::HasMissingValue": "pure",
          "Histogram::DataOnMissing": "pure", "Histogram::SortOnNodeScore": "effect", "Histogram::Histogram": "pure",
          "Column::type": "pure", "BucketizedFloatColumn::get_bucket_max": "pure", "BucketizedFloatColumn::get_bucket_min": "pure",
          "IntegerizedColumn::max_int": "pure", "BucketizedFloatColumn::max_int": "pure", "StringColumn::max_int": "pure", "Column::name": "pure"}


def enum(c, tail):
    for name, vals in c.db["enums"].items():
        d = vals if isinstance(vals, dict) else {}
        for k, v in (d.items() if d else [(x["name"], x["v"]) for x in vals]):
            if k.split("::")[-1] == tail:
                return v
    raise Missing("enumerator " + tail)


F = Fraction


class Model:
    """One abstract histogram with a configuration."""

    def __init__(self, seed, string, types):
        r = random.Random("m%s" % seed)
        self.string = string
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        codes = list(range(0, n + 2))
        if not string:
            v = sorted(r.sample(codes, n))
        else:
            v = r.sample(codes, n)
        self.v = v
        self.d = {c: (F(r.randint(-6, 6), r.choice([1, 2])), F(r.choice([0, 1, 1, 2, 2, 3, 5]), r.choice([1, 1, 2]))) for c in v}
        for c, (g, h) in list(self.d.items()):
            if g == 0 and h == 0:
                self.d[c] = (F(1), F(1))
        self.g = sum((x for x, _ in self.d.values()), F(0))
        self.h = sum((x for _, x in self.d.values()), F(0))
        self.lam = r.choice([F(0), F(0), F(1), F(1, 2), F(2), F(3)])
        self.min_hessian = r.choice([F(0), F(0), F(1, 2), F(1), F(2)])
        self.min_gain = r.choice([F(0), F(0), F(1, 2), F(1), F(-1), F(4)])
        hs = [h for h, *_ in self.hessians()]
        if hs and r.random() < .3:
            self.min_hessian = r.choice([h for h in hs if h >= 0] or [F(0)])
        gs = [x[0] for x in self.candidates()]
        if gs and r.random() < .4:
            self.min_gain = r.choice(gs)
        # bucket boundaries: non-overlapping, increasing; bucket 0 is the missing one
        x = F(r.randint(-4, 4))
        self.lo, self.hi = {}, {}
        for c in range(1, n + 4):
            self.lo[c] = x
            x += r.choice([0, 0, 1, 2])
            self.hi[c] = x
            x += r.choice([F(1), F(1, 2), F(3)])
        self.types = types

    def energy(self, g, h):
        return F(0) if h + self.lam == 0 else g * g / (h + self.lam)

    def gain_of(self, left):
        """(gain, smaller hessian) of putting exactly the codes `left` on the left."""
        gl = sum((self.d[c][0] for c in self.v if c in left), F(0))
        hl = sum((self.d[c][1] for c in self.v if c in left), F(0))
        gr, hr = self.g - gl, self.h - hl
        return self.energy(gl, hl) + self.energy(gr, hr) - self.energy(self.g, self.h), min(hl, hr)

    def sides(self):
        for i in range(1, len(self.v)):
            s = set(self.v[:i])
            yield s
            if not self.string and 0 in s:
                yield s - {0}

    def hessians(self):
        return [(self.gain_of(s)[1],) for s in self.sides()]

    def candidates(self):
        """(gain, side) of every eligible split point."""
        tol = F(1, 10 ** 6)
        out = []
        for s in self.sides():
            gain, h = self.gain_of(s)
            if h > self.min_hessian and gain > max(self.min_gain, tol) if hasattr(self, "min_gain") else h > 0:
                out.append((gain, s))
        return out

    # ------------------------------------------------ interpretation of leaves
    def sem(self, env, k):
        op = k[0]
        if op == "ret" and isinstance(k[1], str):
            n = k[1]
            a = k[2]
            if n.endswith("Histogram::size"):
                return F(len(self.v))
            if n.endswith("Histogram::value"):
                return F(self.v[self.ix(a[-1])])
            if n.endswith("Histogram::data"):
                return EV.Leaf(("D", self.v[self.ix(a[-1])]))
            if n.endswith("Histogram::DataOnMissing"):
                return EV.Leaf(("D", 0))
            if n.endswith("Histogram::HasMissingValue"):
                return 0 in self.d
            if n.endswith("Column::type"):
                return F(self.types[0 if self.string else 1])
            if n.endswith("::max_int"):
                return F(max(self.v, default=0) + 1)
            if n.endswith("get_bucket_max") or n.endswith("get_bucket_min"):
                c = int(a[-1])
                if c == 0:
                    return float("nan")
                return (self.hi if n.endswith("max") else self.lo)[c]
        if op == "init" and isinstance(k[1], tuple):
            r = k[1]
            if r and r[0] == "*" and isinstance(r[1], tuple) and r[1] and r[1][0] == "D":
                g, h = self.d.get(r[1][1], (F(0), F(0)))
                return {"g": g, "h": h}
            if r == ("arg", self.kcfg):
                return {"l2_lambda": self.lam, "min_hessian": self.min_hessian, "min_gain": self.min_gain}
            if r == ("arg", self.ktot):
                return {"g": self.g, "h": self.h}
        return None

    def ix(self, x):
        if not 0 <= x < len(self.v):
            raise OutOfRange(int(x))
        return int(x)

    def describe(self):
        return "entries %s, lambda %s, min_hessian %s, min_gain %s%s" % (
            ["%d:(g=%s,h=%s)" % (c, self.d[c][0], self.d[c][1]) for c in self.v], self.lam, self.min_hessian, self.min_gain,
            "" if self.string else ", bucket ranges %s" % {c: (str(self.lo[c]), str(self.hi[c])) for c in self.v if c})


class OutOfRange(Exception):
    pass


def extract(c):
    f = c.fn("FindBestSplit")
    I = c.enter(f, mem=True, opaque=OPAQUE)
    P = f["params"]
    kcfg = next(k for k, p in enumerate(P) if "Config" in p["t"])
    ktot = next(k for k, p in enumerate(P) if "GradientData &" in p["t"] and "vector" not in p["t"])
    ksplit = next(k for k, p in enumerate(P) if "Split" in p["t"])
    root = ("*", mk("sym", "arg", ksplit))
    out = I.memval(root)
    g = lambda *path: c_get(out, path)
    return dict(I=I, f=f, kcfg=kcfg, ktot=ktot, root=root, out=out, where="src/%s:%s" % (f["file"], f["l"]),
                types=(enum(c, "kStringColumn"), enum(c, "kBucketizedFloatColumn")),
                found=I.value, gain=g("gain"), thr=g("float_split", "threshold"), mright=g("float_split", "missing_to_right_child"),
                cats=g("cat_split", "internal_categorical_index"))


def c_get(v, path):
    for p in path:
        v = sel(v, (".", p))
    return v


def run(c, x, string, n):
    """Yields (model, found, gain, left side described) for n interpretations; raises EV.Unknown."""
    for s in range(n):
        m = Model("%s/%s/%d" % (c.seed, string, s), string, x["types"])
        m.kcfg, m.ktot = x["kcfg"], x["ktot"]
        env = EV.Env("e%d" % s)
        env.sem = lambda env, k, m=m: sem(env, k, m, x)
        found = EV.ev(x["found"], env, want="bool")
        gain = EV.ev(x["gain"], env, want="float")
        side = None
        note = ""
        if found:
            if string:
                cs = [int(y) for y in EV.ev(x["cats"], env)]
                side = set(cs)
                if len(side) != len(cs):
                    note = "a category is listed twice"
                elif not side <= set(m.v):
                    note = "a category outside the histogram is listed"
            else:
                t = EV.ev(x["thr"], env, want="float")
                mr = EV.ev(x["mright"], env, want="bool")
                side = {q for q in m.v if q and m.hi[q] < t}
                if not mr:
                    side |= {0} & set(m.v)
                note = "threshold %s, missing to the %s" % (t, "right" if mr else "left")
        yield m, bool(found), gain, side, note


def sem(env, k, m, x):
    if k[0] == "init" and k[1] == x["rootkey"]:
        # the proposal the caller passes in is empty
        return {"gain": F(0), "feature": ("str", ""), "float_split": {"threshold": F(0), "missing_to_right_child": False},
                "cat_split": {"internal_categorical_index": [], "category": []}}
    return m.sem(env, k)


def prepare(c):
    x = extract(c)
    env = EV.Env(1)
    t = mk("init", x["root"])
    x["rootkey"] = EV._k(x["root"], env, {})
    return x
