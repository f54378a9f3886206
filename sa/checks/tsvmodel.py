"""Loading of text data sets: set-up of the columns, parsing of the files, and handing of the blocks to the columns, chained from their summaries."""
import re

from ..core import *
from .recmodel import *
from .colmodel import default
from .c36 import Bad

NUM = re.compile(r"^[ \t\n]*[+-]?(inf(inity)?|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)$", re.I)
MISSING = {"NAN", "nan", "NaN", "?", "_", "-", "*"}
TEXT = {"ReadLine": "effect", "FileExists": "pure", "strings::split": "pure", "StringCast": "effect", "TrimWhiteSpace": "effect"}
KINDS = ("bucketized_float_columns_", "raw_float_columns_", "string_columns_")


def number(s):
    """Value of a text as the library's number parser reads it; None when it is not a number."""
    if not NUM.match(s):
        return None
    x = float(s)
    return EV.NANV if x != x else F(x) if abs(x) != float("inf") else x


class Broken(str):
    """Text of a file that cannot be read any further than this."""


def lines(text):
    return [x.rstrip("\r\n") for x in text.split("\n")]


class Tsv:
    def __init__(self, c):
        self.c = c
        self.memo = {}

    def machine(self, name, cls, m, opaque, **kw):
        if name not in self.memo:
            if m is None:
                fs = [g for g in self.c.db["fns"].values() if g.get("ctor") and g.get("rec") == "gbdt::" + cls and g.get("body") is not None and not g.get("implicit") and len(g["params"]) > 1]
                if len(fs) != 1:
                    raise Missing("constructor of " + cls)
                f = fs[0]
            else:
                f = self.c.method("gbdt::" + cls, m)
            self.memo[name] = (f, self.c.enter(f, mem=True, opaque=opaque, **kw))
        return self.memo[name]

    def where(self, name):
        f = self.memo[name][0]
        return "src/%s:%s" % (f["file"], f["l"])

    def setup(self):
        return self.machine("setup", "TSVDataStore", "SetupColumns", TEXT)

    def load(self):
        return self.machine("load", "TSVDataStore", "LoadTSVs", dict(TEXT, **{"SetupColumns": "effect", "ProcessBlock": "effect", "Finalize": "effect",
                                                                              "!pred": lambda g: "effect" if g.get("ctor") and g.get("rec") == "gbdt::TSVBlock" and len(g["params"]) > 1 else None}))

    def read(self):
        return self.machine("read", "TSVBlock", None, TEXT)

    def process(self):
        return self.machine("process", "TSVDataStore", "ProcessBlock", {"Add": "effect", "Finalize": "effect", "Column::status": "pure"})

    def finalize(self):
        return self.machine("finalize", "TSVDataStore", "Finalize", {"Add": "effect", "Finalize": "effect", "Column::status": "pure"})

    def env(self, I, args, this, files, more=None):
        """Interpretation of one machine: arguments by position, the object, the files (path -> text)."""
        env = EV.Env(0)
        env.steps = 3 * 10 ** 6
        reads = {}          # call id -> (event, calls made before its loop)
        for e in I.events:
            if e.kind == "call" and e.fn.split("::")[-1] == "ReadLine" and e.ret.op == "ret":
                reads.setdefault(e.ret.a[2], e)
        per = {}
        for cid, e in reads.items():
            per.setdefault(e.loops, []).append(cid)

        def stream_text(o):
            """Text of the file a stream reads: the argument of the constructor or open."""
            for e in I.events:
                if e.kind == "write" and isinstance(e.val, Term) and e.val.op == "stream" and e.val.a[1] and EV.hk(EV.ev(mk("addr", e.root, e.path), env)) == o:
                    p = EV.ev(e.val.a[1][0], env)
                    return files.get(p[1])
            raise EV.Unknown("stream %s" % (str(o)[:80],))

        def base(cid):
            """Number of lines read before the loop the call is in (or before the call)."""
            n = 0
            for c2, e2 in reads.items():
                if c2 == cid:
                    break
                if e2.loops == ():
                    n += 1 if EV.evg(e2.pc, env, {}) else 0
                else:
                    raise EV.Unknown("lines read by several loops")
            return n

        def line(cid, idx):
            e = reads[cid]
            if len(idx) > 1 or len(per[e.loops]) > 1 and e.loops:
                raise EV.Unknown("lines read by nested loops")
            return base(cid) + (int(idx[0]) if idx else 0)

        def reads_before(sid, idx):
            """Lines read from the stream when its state is asked for."""
            n = 0
            test = next((e for e in I.events if e.kind == "stream" and getattr(e, "res", None) is not None and e.res.a[2] == sid), None)
            if test is None:
                raise EV.Unknown("state of a stream")
            for e in I.events:
                if e is test:
                    break
                if e in rs and e.loops == ():
                    n += 1 if EV.evg(e.pc, env, {}) else 0
                elif e in rs and e.loops == test.loops:
                    n += 1
                elif e in rs and len(e.loops) == 1 and not test.loops:
                    st, early, k = EV.fold(e.loops[0], None, env, {})
                    n += k + (1 if early else 0)
            per_it = [r for r in reads.values() if r.loops == test.loops and test.loops]
            if len(per_it) > 1 or any(r.loops and r.loops != test.loops and (test.loops or len(r.loops) > 1) for r in reads.values()):
                raise EV.Unknown("lines read by several loops")
            return n + (int(idx[0]) if per_it and idx else 0)
        rs = list(reads.values())

        def sem(env, k):
            if more is not None:
                v = more(env, k)
                if v is not None:
                    return v
            if k == ("init", ("this",)):
                return this
            if k[0] == "init" and k[1][0] == "arg":
                return args[k[1][1]]
            if k[0] == "sym" and k[1] == "arg":
                return args[int(k[2])]
            if k[0] == "init" and k[1][0] in ("heap", "tmp"):
                return {}
            if k[0] == "init" and k[1][0] == "g" and "NaN" in str(k[1][1]):
                return self.markers(k[1][1])
            if k[0] == "default":
                return default(k[1])
            if k[0] == "code" and isinstance(k[1], tuple):
                return F(k[1][1]) if k[1][:1] == ("status",) else None
            if k[0] == "ret":
                n = fnname(k)
                if n == "FileExists":
                    return k[2][0][1] in files
                if n == "split":
                    return [("str", x) for x in k[2][0][1].split(k[2][1][1])] if k[2][0][1] else []
                if n == "ReadLine":
                    t = stream_text(EV.hk(k[2][0]))
                    ls = lines(t) if t is not None else [""]
                    i = line(k[3], k[4])
                    return ("str", ls[i] if i < len(ls) else "")
                if n == "StringCast":
                    return number(k[2][0][1]) is not None
            if k[0] == "sres" and k[1] in ("eof", "good", "fail"):
                t = stream_text(EV.hk(k[2]))
                ls = lines(t) if t is not None else [""]
                idx = k[4] if len(k) > 4 else ()
                done = reads_before(k[3], idx)
                if isinstance(t, Broken):
                    if done > len(ls) + 5:
                        raise Bad("endless", "reading of a file that cannot be read to its end goes on after the failure", None)
                    return {"eof": False, "good": done <= len(ls), "fail": done > len(ls)}[k[1]]
                if t is None:
                    return k[1] == "fail" or done > 0 and k[1] == "eof"
                return {"eof": done >= len(ls), "good": done < len(ls), "fail": done > len(ls)}[k[1]]
            if k[0] == "out":
                n = fnname(k)
                if n == "TrimWhiteSpace":
                    return ("str", k[5][1].strip(" \t\r\n\v\f"))
                if n == "StringCast":
                    v = number(args_of(I, k, env)[0][1])
                    return F(0) if v is None else v
                if n in ("ReadLine", "FileExists", "split"):
                    return k[5]
            return None
        env.sem = sem
        return env

    def markers(self, gid):
        """Value of the table of missing-value markers."""
        if gid not in self.memo:
            g = self.c.db["globals"].get(gid)
            out = set()

            def strs(x):
                if isinstance(x, dict):
                    if x.get("k") == "str":
                        out.add(x.get("v"))
                    for v in x.values():
                        strs(v)
                elif isinstance(x, list):
                    for v in x:
                        strs(v)
            strs((g or {}).get("init"))
            m = EV.MapVal()
            for s in out:
                m.put(("str", s), True)
            self.memo[gid] = m
        return self.memo[gid]

    # ------------------------------------------------------------ steps
    def sure(self, name, what, f):
        """f's value; a read outside of what is there is a defect."""
        try:
            return f()
        except EV.Stuck as u:
            raise Bad("out of range", "%s (%s)" % (u, what), self.where(name))

    def do_setup(self, first, config, files):
        f, I = self.setup()
        this = {"column_map_": EV.MapVal(), "float_column_indices_": [], "string_column_indices_": [], "status_": ("status", 0, ("str", ""))}
        for k in KINDS:
            this[k] = []
        for q in ("DataStore", "TSVDataStore"):
            for fd in self.c.db["recs"]["gbdt::" + q].get("fields") or []:
                this.setdefault(fd["name"], default(fd["t"]))
        args = {}
        for k, p in enumerate(f["params"]):
            args[k] = config if "Config" in p["t"] else ("str", first)
        env = self.env(I, args, this, files)
        code = EV.num_(EV.ev(L.code(I.value), env, want="int"))
        return code, EV.ev(I.memval(("this",)), env)

    def do_read(self, args, files):
        """The block a TSVBlock constructed with these arguments becomes."""
        f, I = self.read()
        this = {fd["name"]: default(fd["t"]) for fd in self.c.db["recs"]["gbdt::TSVBlock"].get("fields") or []}
        env = self.env(I, dict(enumerate(args)), this, files)
        return EV.ev(I.memval(("this",)), env)

    def do_load(self, tsvs, config, files, state, setup_code, process=None, finalize=0):
        """(code, [(block read, file, block)], [block handed over, in order], [what is done by tasks])."""
        f, I = self.load()
        args = {}
        for k, p in enumerate(f["params"]):
            args[k] = config if "Config" in p["t"] else [("str", x) for x in tsvs]
        blocks = {}
        made = {}
        calls = {}

        def block(key, e, idx):
            """The block constructed by call event e in the iterations idx."""
            if key not in made:
                made[key] = None
                sv = dict(env.dyn)
                for l, v in zip(e.loops, idx):
                    env.dyn[IN.LOOPS[l].idx] = F(v)
                try:
                    vs = [EV.ev(a, env) for a in e.args]
                    th = EV.hk(EV.ev(e.this, env))
                finally:
                    env.dyn.clear()
                    env.dyn.update(sv)
                made[key] = (self.do_read(vs, files), vs, th)
            return made[key]

        def more(env, k):
            if k[0] == "out":
                n = fnname(k)
                if n in ("SetupColumns", "ProcessBlock", "Finalize"):
                    return state if k[3] == "this" else k[5]
                if n == "TSVBlock" and k[3] == "this":
                    return block((k[2], k[4]), event_of(I, k[2], k[1]), k[4])[0]
                return k[5] if n == "TSVBlock" else None
            if k[0] == "ret":
                n = fnname(k)
                if n == "SetupColumns":
                    return ("status", setup_code, ("str", "setup"))
                if n == "ProcessBlock":
                    i = int(k[4][-1]) if k[4] else 0
                    return ("status", process(i) if process else 0, ("str", "process"))
                if n == "Finalize":
                    return ("status", finalize, ("str", "finalize"))
            return None
        this = dict(state)
        env = self.env(I, args, this, files, more)
        code = EV.num_(EV.ev(L.code(I.value), env, want="int"))
        reads, handed, finals = [], [], 0
        for e in trace(I.events, env):
            if e.kind != "call":
                continue
            n = e.fn.split("::")[-1]
            if n == "TSVBlock":
                idx = tuple(EV.num_(EV.ev(IN.LOOPS[l].idx, env)) for l in e.loops)
                b, vs, th = block((e.ret.a[2] if e.ret is not None and e.ret.op == "ret" else id(e), idx), e, idx)
                reads.append((th, vs, b))
                blocks[th] = (vs[0][1], b)
            elif n == "ProcessBlock":
                p = [EV.hk(EV.ev(a, env)) for a in e.args]
                handed.append((p[0], e, blocks.get(p[0])))
            elif n == "Finalize":
                finals += 1
        return code, reads, handed, finals

    def do_process(self, state, block, which="process"):
        """[(column, values)] a block leads to, in order."""
        f, I = self.process() if which == "process" else self.finalize()
        env = self.env(I, {0: ("theblock",)}, state, {})
        out = []
        for e in trace(I.events, env):
            if e.kind != "call":
                continue
            n = e.fn.split("::")[-1]
            if n == "Add":
                out.append((EV.hk(EV.ev(e.this, env)), resolve(EV.ev(e.args[0], env), block)))
            elif n == "Finalize":
                out.append((EV.hk(EV.ev(e.this, env)), None))
        return out


def resolve(a, block):
    if isinstance(a, list):
        return a
    if isinstance(a, tuple) and a[0] == "addr" and a[1][0] == "*":
        v = block
        for s in a[2]:
            if s[0] == ".":
                v = v[s[1]]
            elif s[0] == "[":
                i = EV.num_(s[1])
                if not 0 <= i < len(v):
                    raise Bad("range", "entry %s of a block with %d columns is handed to a column" % (i, len(v)), None)
                v = v[int(i)]
            else:
                raise EV.Unknown("step %s" % (s,))
        return v
    raise EV.Unknown("argument %s" % (str(a)[:80],))


def pairs(m):
    return [(k, v) for k, v in m.items()]
