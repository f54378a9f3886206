"""Abstract interpreter: one pass over a function's syntax tree computes, without running anything,
a gated value graph (every value as a term over the inputs, every effect with its guard).

Loops are summarised in closed form (sums, element-wise maps, filters, existential guards) or left
as opaque loop values; callees in the repository are inlined; library calls are modelled in
lib.py.  The result is a list of guarded events plus the symbolic final memory and return value."""
import re
from .terms import *
from . import terms as T
from . import evalterm

LOOPS = {}
evalterm.LOOPS = LOOPS


class Loop:
    def __init__(self, id, site):
        self.id, self.site = id, site
        self.owner = None       # the interpretation it belongs to
        self.idx = mk("idx", id)
        self.hi = None          # trip bound (index < hi), None if unknown
        self.bound = None       # trip count term used for closed forms
        self.residual = 1       # further condition for an iteration to happen
        self.next = {}          # (root, path) -> value after one iteration in terms of the head values
        self.mu = {}            # (root, path) -> head value
        self.init = {}          # (root, path) -> value before the loop
        self.parent = None
        self.exits = 0          # guard of leaving the body by break / return / death
        self.early = 0          # ... other than a break that only implements the range test
        self.cond = 1           # loop condition in terms of the head values


class Ev:
    fid = None
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("kind", "pc", "loops", "locks", "tasks", "stack", "file", "line")}
        return "<%s %s:%s pc=%s loops=%s%s %s>" % (
            self.kind, self.file, self.line, bshow(self.pc), self.loops,
            " task%s" % (self.tasks,) if self.tasks else "", d)


class St:
    __slots__ = ("mem", "pc", "locks")

    def __init__(self, mem, pc, locks=()):
        self.mem, self.pc, self.locks = mem, pc, locks

    def fork(self, c=1):
        return St(dict(self.mem), band(self.pc, c), self.locks)


class Frame:
    def __init__(self, fn, this=None, no=0):
        self.fn, self.this, self.no = fn, this, no
        self.env = {}
        self.exits = []
        self.scopes = []
        self.ctx = []


class Ctx:
    """Target of break / continue."""
    def __init__(self, kind, depth):
        self.kind, self.depth = kind, depth
        self.breaks, self.conts = [], []


class Limit(Exception):
    pass


def strip_tpl(name):
    """Removes template argument lists from a qualified name (operators kept)."""
    out, d, i = [], 0, 0
    while i < len(name):
        if d == 0 and name.startswith("operator", i) and (i == 0 or name[i - 1] == ":"):
            m = re.match(r"operator(\(\)|\[\]|<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|[-+*/%&|^]=|[-+*/%&|^~!=<>,]|\s.*)", name[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                if i < len(name) and name[i] == "<":
                    break
                continue
        c = name[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


_sn = {}


def sname(name):
    r = _sn.get(name)
    if r is None:
        r = _sn[name] = strip_tpl(name or "")
    return r


INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char",
        "signed char", "long long", "unsigned long long", "bool"}
FLOATS = {"float", "double", "long double"}


def base_type(t):
    t = (t or "").strip()
    if t.startswith("const "):
        t = t[6:]
    return t.strip()


def split_targs(t):
    """Top level template arguments of a type text."""
    i = t.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    for c in t[i + 1:]:
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


UNSIGNED = re.compile(r"^unsigned (int|long|long long)$|^size_t$|^uint$|^uint32$|^uint64$")
SIGNED = re.compile(r"^(int|long|long long|short|signed char|int32|int64)$")


class Interp:
    MAXDEPTH = 40

    def __init__(self, db, opaque=None, mem=False, stream=True, types=None, raw=False):
        self.loopbase = max(LOOPS, default=0)
        self.heapt = {}         # objects created by loop iterations: (kind, site, n) -> (indices, value)
        self.sections = []      # critical sections: (guard, value before, value found, location)
        self.raw = raw                     # keep floating-point operations as written
        self.db = db
        self.entry = None
        self.opaque = opaque or {}         # short function name -> "pure" | "effect"
        self.trace_mem = mem
        self.events = []
        self.quiet = 0
        self.frames = []
        self.loops = ()
        self.tasks = ()
        self.counter = {}
        self.enqueued = False
        self.st = St({}, 1)
        self.roottype = {}                 # root -> exact type of the object
        self.analysed = set()
        self.unmodelled = {}
        self.cursite = ("", 0)
        self.enqueued = []
        self.steps = 0
        self.over = {}
        for f in db["fns"].values():
            for o in f.get("over") or ():
                self.over.setdefault(o, []).append(f["id"])

    # ------------------------------------------------------------ bookkeeping
    def fresh(self, kind):
        self.counter[kind] = self.counter.get(kind, 0) + 1
        return self.counter[kind]

    def emit(self, kind, **kw):
        if self.quiet or self.st.pc == 0:
            return None
        e = Ev(kind, pc=self.st.pc, loops=self.loops, locks=self.st.locks, tasks=self.tasks,
               file=self.cursite[0], line=self.cursite[1],
               stack=tuple(f.fn["name"] for f in self.frames), **kw)
        self.events.append(e)
        return e

    def miss(self, what):
        if not self.quiet:
            self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    # ------------------------------------------------------------ locations
    def addr(self, root, path=()):
        if path:
            while root[0] == "kv" and path and path[0] == (".", "second"):
                root, path = root[1], root[2] + (("{", root[3]),) + path[1:]
        if root[0] == "*" and not path:
            return root[1]
        return mk("addr", root, path)

    def locs(self, p):
        """Pointer term -> (root, path); p must not be an ite."""
        if p.op == "addr":
            return p.a[0], p.a[1]
        if p.op == "begin":
            return p.a[0], p.a[1] + (("[", ZERO),)
        if p.op in ("find", "lowb"):
            key = p.a[2] if p.op == "find" else mk("lbkey", p.a[3], p.a[2])
            if p.a[-1] == "set":
                return ("key", key), ()
            return ("kv", p.a[0], p.a[1], key), ()
        if p.op in ("mbegin", "mrbegin"):
            return self._kv(p, ZERO)
        if p.op == "poly":
            base = None
            for m, c in p.a[0]:
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    x = m[0][0]
                    if x.op in ("begin", "mbegin", "mrbegin", "lowb") or x in ITER or x in MAPIT:
                        base = x
            if base is not None:
                off = sub(p, base)
                if base.op == "begin":
                    return base.a[0], base.a[1] + (("[", off),)
                if base.op in ("mbegin", "mrbegin"):
                    return self._kv(base, off)
                if base.op == "lowb" or base in MAPIT:
                    return self._kv(self.mapit(base), p)
                return ("*", base), (("[", off),)
        if p in MAPIT:
            return self._kv(self.mapit(p), p)
        if p in ITER:
            return ("*", p), (("[", ZERO),)
        return ("*", p), ()

    def mapit(self, it):
        """The start of the map a loop-carried iterator walks over, in its current state; iterators are positions in key order."""
        root, path, kind = MAPIT[it] if it in MAPIT else (it.a[0], it.a[1], it.a[-1])
        return mk("mbegin", root, path, self.qread(self.addr(root, path)), kind)

    def _kv(self, b, off):
        if b.op == "mrbegin":
            off = sub(sub(size(b.a[2]), ONE), off)
        key = mk("keyat", b.a[2], off)
        if b.a[3] == "set":
            return ("key", key), ()
        return ("kv", b.a[0], b.a[1], key), ()

    def field(self, p, f, ty=None):
        """Address of element f=(kind, key) below pointer p."""
        def g(q):
            if q.op == "null":
                return NULL
            r, path = self.locs(q)
            return self.addr(r, path + (f,))
        return lift(g, p)

    def initial(self, root):
        if root[0] == "key":
            return root[1]
        if root[0] == "g":
            g = self.db["globals"].get(root[1])
            if g and g.get("const") and g.get("init") is not None:
                v = self.const_global(root[1], g)
                if v is not None:
                    return v
        if root[0] == "kv":
            return rec({"first": root[3]})
        if root[0] == "heap" and root[3]:
            h = self.heapt.get(root[:3])
            if h is not None and len(h[0]) == len(root[3]):
                m = dict(zip(h[0], root[3]))
                return subst(h[1], m.get)
        t = mk("init", root)
        return t

    def const_global(self, id, g):
        c = self.__dict__.setdefault("_cg", {})
        if id not in c:
            c[id] = None
            sv, sq, sl = self.st, self.quiet, self.loops
            self.st, self.quiet = St({}, 1), self.quiet + 1
            fr = Frame({"name": "<init>", "id": "<init>", "file": g.get("file", "")})
            self.frames.append(fr)
            try:
                c[id] = self.rv(g["init"])
            finally:
                self.frames.pop()
                self.st, self.quiet, self.loops = sv, sq, sl
        return c[id]

    def memval(self, root):
        v = self.st.mem.get(root)
        return self.initial(root) if v is None else v

    def read(self, p, ty=None):
        def g(q):
            if q.op == "null":
                return mk("undef", "null")
            root, path = self.locs(q)
            if root[0] == "kv" and not path:
                v = rec({"first": root[3], "second": self.read(self.addr(root[1], root[2] + (("{", root[3]),)), None)})
            else:
                v = self.memval(root)
                t0 = self.roottype.get(root)
                for i, e in enumerate(path):
                    v = sel(v, e, base_type(ty) if i == len(path) - 1 else None)
            if v.op == "ite":
                v = under(v, self.st.pc)
            if not path and ty and v.op in ("sym", "init", "mu", "out") and v not in TYPE:
                TYPE[v] = base_type(ty)
                if isiter(ty):
                    ITER.add(v)
            if self.trace_mem and not self.quiet:
                self.emit("read", root=root, path=path, val=v)
            return v
        if self.trace_mem:
            return self._guarded(g, p)
        return lift(g, p)

    def _guarded(self, g, p):
        if p.op != "ite":
            return g(p)
        sv = self.st
        c = p.a[0]
        self.st = sv.fork(c)
        a = self._guarded(g, p.a[1])
        self.st = sv.fork(bnot(c))
        b = self._guarded(g, p.a[2])
        self.st = sv
        return ite(c, a, b)

    def write(self, p, x, how="="):
        if p.op == "ite":
            c = p.a[0]
            sv = self.st
            self.st = sv.fork(c)
            self.write(p.a[1], x, how)
            a = self.st
            self.st = sv.fork(bnot(c))
            self.write(p.a[2], x, how)
            self.st = self.merge(a, self.st, c)
            return
        if p.op == "null":
            return
        root, path = self.locs(p)
        if root[0] in ("kv",) and not path:
            return
        old = self.memval(root)

        def go(v, i):
            if i == len(path):
                return x
            return upd(v, path[i], go(sel(v, path[i]), i + 1))
        if self.trace_mem and not self.quiet:
            self.emit("write", root=root, path=path, val=x, how=how)
        self.st.mem[root] = go(old, 0)

    def tmp(self, v):
        root = ("tmp", self.fresh("tmp"))
        self.st.mem[root] = v
        return self.addr(root)

    # ------------------------------------------------------------ state merge
    def merge(self, a, b, c=None):
        if a.pc == 0:
            return b
        if b.pc == 0:
            return a
        pc = bor(a.pc, b.pc)
        if c is None:
            c = brestrict(a.pc, pc)
        mem = {}
        for r in a.mem:
            if r in b.mem:
                mem[r] = a.mem[r] if a.mem[r] is b.mem[r] else ite(c, a.mem[r], b.mem[r])
            elif r[0] in ("v", "tmp"):
                mem[r] = a.mem[r]
            else:
                mem[r] = ite(c, a.mem[r], self.initial(r)) if r[0] != "heap" else a.mem[r]
        for r in b.mem:
            if r not in a.mem:
                mem[r] = b.mem[r] if r[0] in ("v", "tmp", "heap") else ite(c, self.initial(r), b.mem[r])
        return St(mem, pc, a.locks if a.locks == b.locks else tuple(x for x in a.locks if x in b.locks))

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.st.pc == 0:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Limit("too many steps")
        if "l" in s and self.frames:
            self.cursite = (self.frames[-1].fn.get("file", ""), s["l"])
        getattr(self, "s_" + s["s"])(s)

    def s_block(self, s):
        f = self.frames[-1]
        f.scopes.append([])
        for x in s["b"]:
            if self.st.pc == 0:
                break
            self.stmt(x)
        self.leave(f.scopes.pop())

    def leave(self, scope):
        """End of scope: destructors in reverse order."""
        for root, rt, t in reversed(scope):
            self.destroy(root, rt, t)
            if self.enqueued:
                self.emit("gone", root=root)

    def destroy(self, root, rt, t):
        a = self.addr(root)
        if rt in ("std::lock_guard", "std::unique_lock", "std::scoped_lock"):
            self.st.locks = tuple(l for l in self.st.locks if l[0] != root)
            return
        if rt == "ThreadPool" and "ThreadPool" not in self.opaque.get("!inline", ()):
            self.emit("join", pool=a)
            return
        if rt in ("std::unique_ptr",):
            self.emit("delete", ptr=self.read(a), by=root)

    def unwind(self, depth):
        f = self.frames[-1]
        for sc in reversed(f.scopes[depth:]):
            self.leave(sc)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.ev(s["e"])

    def s_decl(self, s):
        f = self.frames[-1]
        for d in s["d"]:
            self.declare(d)

    def declare(self, d):
        f = self.frames[-1]
        if not d.get("id"):
            return
        if d.get("static"):
            root = ("g", d["id"])
            f.env[d["id"]] = self.addr(root)
            if d.get("init") is not None and root not in self.st.mem and base_type(d["t"]) != d["t"]:
                self.st.mem[root] = self.rv(d["init"])
            return
        if d.get("ref"):
            if d.get("init") is not None:
                f.env[d["id"]] = a = self.lv(d["init"])
                if f.scopes and a.op == "addr" and a.a[0][0] == "tmp" and not a.a[1]:
                    f.scopes[-1].append((a.a[0], None, d["t"]))
            return
        root = ("v", d["id"], f.no)
        f.env[d["id"]] = self.addr(root)
        self.roottype[root] = d.get("rec") or base_type(d["t"])
        if f.scopes:
            f.scopes[-1].append((root, d.get("rec"), d["t"]))
        self.st.mem.pop(root, None)
        if d.get("init") is not None:
            self.init_at(self.addr(root), d["init"], d["t"])
        else:
            x = mk("undef", d["id"])
            self.st.mem[root] = x

    def init_at(self, a, e, ty=None):
        while e.get("k") == "cast" and e.get("ck") in ("NoOp", "ConstructorConversion", "UserDefinedConversion") and \
                e["e"].get("k") == "ctor":
            e = e["e"]
        if e["k"] == "ctor" and self.user_ctor(e):
            self.construct(a, e)
            return
        v = self.rv(e)
        self.write(a, v, "init")
        self.after_init(a, e, v)

    def after_init(self, a, e, v):
        if v.op == "lock":
            # lock objects: remember which variable holds the lock
            r, _ = self.locs(a)
            self.st.locks = self.st.locks + ((r, v.a[0]),)
            self.acquired(v.a[0])

    def acquired(self, mutex):
        """A lock was taken: what it protects may have been changed by others since it was last held."""
        self.emit("lock", mutex=mutex, held=self.st.locks)
        for root, path in (self.opaque["!shared"](mutex) if "!shared" in self.opaque else ()):
            before = self.rawread(root, path)
            now = mk("sym", "shared", len(self.sections) + 1)
            self.inherit_type(now, before, (root, path))
            self.rawwrite(root, path, now)
            if not self.quiet:
                self.sections.append((self.st.pc, before, now, (root, path)))

    def s_if(self, s):
        f = self.frames[-1]
        f.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.stmt(s["cv"])
        c = tobool(self.rv(s["c"]))
        pre = self.st
        c = brestrict(c, pre.pc) if pre.pc != 0 else c
        self.st = pre.fork(c)
        self.stmt(s["a"])
        a = self.st
        self.st = pre.fork(bnot(c))
        self.stmt(s.get("b"))
        self.st = self.merge(a, self.st, c if a.pc == band(pre.pc, c) and self.st.pc == band(pre.pc, bnot(c)) else None)
        self.leave(f.scopes.pop())

    def s_ret(self, s):
        f = self.frames[-1]
        v = UNIT
        if s.get("e") is not None:
            if f.fn.get("rt", "").endswith("&") and s["e"].get("lv"):
                v = self.lv(s["e"])
            else:
                v = self.rv(s["e"])
        if self.st.pc == 0:
            return
        site = self.cursite
        self.unwind(0)
        self.emit("return", val=v, depth=len(self.frames))
        f.exits.append((self.st, v, site))
        self.st = St(self.st.mem, 0, self.st.locks)

    def s_break(self, s):
        f = self.frames[-1]
        c = f.ctx[-1]
        self.unwind(c.depth)
        c.breaks.append(self.st)
        self.st = St(self.st.mem, 0, self.st.locks)

    def s_continue(self, s):
        f = self.frames[-1]
        c = [x for x in f.ctx if x.kind == "loop"][-1]
        self.unwind(c.depth)
        c.conts.append(self.st)
        self.st = St(self.st.mem, 0, self.st.locks)

    def s_switch(self, s):
        f = self.frames[-1]
        if s.get("init"):
            self.stmt(s["init"])
        v = self.rv(s["c"])
        pre = self.st
        items = []
        body = s["body"]["b"] if s["body"]["s"] == "block" else [s["body"]]

        def flat(x):
            labels = []
            while x is not None and x["s"] in ("case", "default"):
                labels.append(x["v"] if x["s"] == "case" else None)
                x = x["b"]
            items.append((labels, x))
        for x in body:
            flat(x)
        conds = {}
        anyc = 0
        for labels, _ in items:
            for l in labels:
                if l is not None:
                    g = ieq(v, self.rv(l))
                    conds[id(l)] = g
                    anyc = bor(anyc, g)
        hasdef = any(l is None for ls, _ in items for l in ls)
        ctx = Ctx("switch", len(f.scopes))
        f.ctx.append(ctx)
        f.scopes.append([])
        self.st = pre.fork(0)
        for labels, x in items:
            g = 0
            for l in labels:
                g = bor(g, bnot(anyc) if l is None else conds[id(l)])
            if labels:
                self.st = self.merge(pre.fork(g), self.st)
            self.stmt(x)
        self.leave(f.scopes.pop())
        f.ctx.pop()
        st = self.st
        if not hasdef:
            st = self.merge(st, pre.fork(bnot(anyc)))
        for b in ctx.breaks:
            st = self.merge(st, b)
        self.st = st

    def s_try(self, s):
        pre = self.st.fork()
        threw = atom(mk("threw", self.cursite[0].split("/")[-1], self.cursite[1], self.loops))
        n = len(self.events)
        self.st = pre.fork(bnot(threw))
        self.frames[-1].__dict__.setdefault("tries", []).append(threw)
        self.stmt(s["b"])
        self.frames[-1].tries.pop()
        out = self.st
        for h in s["h"]:
            self.st = pre.fork(threw)
            hb = h.get("b") if h.get("s") != "block" else h
            self.stmt(hb if hb else h)
            out = self.merge(out, self.st)
        self.st = out

    def s_opaque(self, s):
        self.miss("stmt " + str(s.get("what")))

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        f = self.frames[-1]
        f.scopes.append([])
        self.stmt(s.get("init"))
        self.loop(lambda: self.cond_of(s), lambda: self.stmt(s["body"]),
                  (lambda: self.ev(s["inc"])) if s.get("inc") else None, s)
        self.leave(f.scopes.pop())

    def cond_of(self, s):
        if s.get("cv"):
            self.stmt(s["cv"])
        if s.get("c") is None:
            return 1
        return tobool(self.rv(s["c"]))

    def s_while(self, s):
        self.loop(lambda: self.cond_of(s), lambda: self.stmt(s["body"]), None, s)

    def s_do(self, s):
        # do B while(c)  =  first = true; while (first || c) { first = false; B }
        root = ("v", "@do%d" % self.fresh("do"), self.frames[-1].no)
        a = self.addr(root)
        self.st.mem[root] = TRUE

        def cond():
            first = tobool(self.read(a))
            pre = self.st
            self.st = pre.fork(bnot(first))
            c = tobool(self.rv(s["c"])) if self.st.pc else 0
            x = self.st
            self.st = self.merge(pre.fork(first), x, first)
            return bor(first, c)

        def body():
            self.st.mem[root] = FALSE
            self.stmt(s["body"])
        self.loop(cond, body, None, s, dowhile=root)

    def s_forrange(self, s):
        f = self.frames[-1]
        f.scopes.append([])
        if s["range"].get("lv"):
            rng = self.lv(s["range"])
        else:
            rng = self.tmp(self.rv(s["range"]))
        b, e = self.range_of(rng, s)
        root = ("v", "@it%d" % self.fresh("it"), f.no)
        a = self.addr(root)
        self.st.mem[root] = b
        var = s["var"]

        def cond():
            return bnot(self.iteq(self.read(a), e))

        def body():
            it = self.read(a)
            p = self.itderef(it)
            f.scopes.append([])
            d = var
            if d.get("ref"):
                f.env[d["id"]] = p
            else:
                r2 = ("v", d["id"], f.no)
                f.env[d["id"]] = self.addr(r2)
                self.roottype[r2] = d.get("rec") or base_type(d["t"])
                self.st.mem[r2] = self.read(p, d["t"])
                f.scopes[-1].append((r2, d.get("rec"), d["t"]))
            self.stmt(s["body"])
            self.leave(f.scopes.pop())

        def inc():
            self.st.mem[root] = add(self.read(a), ONE)
        self.loop(cond, body, inc, s)
        self.leave(f.scopes.pop())

    def range_of(self, rng, s):
        bf = s.get("beginfn") or {}
        ef = s.get("endfn") or {}
        if bf.get("fn") in self.db["fns"]:
            b = self.call_fn(self.db["fns"][bf["fn"]], rng, [])
            e = self.call_fn(self.db["fns"][ef["fn"]], rng, [])
            return b, e
        cls = sname(bf.get("rec") or s.get("rec") or "")
        if not cls:
            t = base_type(s["range"].get("t"))
            cls = sname(t.split("<")[0])
        return self.begin(rng, cls), self.end(rng, cls)

    def begin(self, p, cls):
        def g(q):
            root, path = self.locs(q)
            if cls in ("std::map", "std::unordered_map", "std::set", "std::unordered_set"):
                mv = self.read(q)
                return mk("mbegin", root, path, mv, "set" if "set" in cls else "map")
            return mk("begin", root, path)
        return lift(g, p)

    def end(self, p, cls):
        def g(q):
            root, path = self.locs(q)
            mv = self.read(q)
            if cls in ("std::map", "std::unordered_map", "std::set", "std::unordered_set"):
                return mk("mend", root, path, mv)
            return add(mk("begin", root, path), size(mv))
        return lift(g, p)

    def itderef(self, it):
        def g(q):
            r, p = self.locs(q)
            return self.addr(r, p)
        return lift(g, it)

    def iteq(self, x, y):
        def g(a, b):
            for p, q in ((a, b), (b, a)):
                if q.op == "mend":
                    if p.op == "find":
                        return B(bnot(contains(p.a[3], p.a[2])))
                    if p.op == "lowb":
                        return B(atom(mk("nolb", p.a[3], p.a[2])))
                    if any(z in MAPIT and MAPIT[z][:2] == q.a[:2] or z.op == "lowb" and z.a[:2] == q.a[:2] for z in subterms(p)):
                        return B(eq0(sub(size(q.a[2]), p)))
                    bs = [z for z in subterms(p) if z.op in ("mbegin",) and z.a[:2] == q.a[:2]]
                    if bs:
                        return B(ieq(sub(p, bs[0]), size(bs[0].a[2])))
                    if p.op == "mend":
                        return TRUE
            if a is b:
                return TRUE
            d = sub(a, b)
            return B(eq0(d))
        return tobool(lift(g, x, y))

    # The loop engine.  cond/body/inc are callables that run on self.st.
    def loop(self, cond, body, inc, site, dowhile=None):
        if self.st.pc == 0:
            return
        f = self.frames[-1]
        lid = self.loopbase + self.fresh("loop")
        if lid in LOOPS and LOOPS[lid].owner is not self:        # another interpretation was started in the meantime
            self.loopbase += max(LOOPS) + 1 - lid
            lid = max(LOOPS) + 1
        L = LOOPS[lid] = Loop(lid, (f.fn.get("file", ""), site.get("l", 0) if isinstance(site, dict) else 0))
        L.parent = self.loops[-1] if self.loops else None
        L.owner = self
        L.fn = f.fn["name"]
        entry = self.st
        entry_loops = self.loops
        nexit0 = len(f.exits)
        self.loops = self.loops + (lid,)
        snap = dict(self.counter)
        known = {}      # (root, path) -> kind "elem" | "whole"

        def head(subst_closed):
            st = entry.fork()
            self.st = st
            for (root, path), kind in sorted(known.items(), key=lambda x: (len(x[0][1]), str(x[0]))):
                a = self.addr(root, path)
                v = subst_closed.get((root, path))
                if v is None:
                    v = L.mu[(root, path)]
                self.rawwrite(root, path, v)

        def one_iteration():
            """Runs one iteration from self.st; returns (cond guard, head state after cond, end state, ctx)."""
            self.counter = dict(snap)
            del f.exits[nexit0:]
            hi, L.hi = L.hi, None       # the bound holds only after the test
            c = cond()
            L.hi = hi
            after_c = self.st.fork()
            self.st = self.st.fork(c)
            ctx = Ctx("loop", len(f.scopes))
            f.ctx.append(ctx)
            bodystart = self.st.fork()
            body()
            for x in ctx.conts:
                self.st = self.merge(self.st, x)
            if inc and self.st.pc:
                inc()
            f.ctx.pop()
            return c, after_c, self.st, ctx, bodystart

        self.quiet += 1
        dead0 = len(self.deaths)

        def discover(h, end, ctx):
            """Adds the locations one iteration changes to `known`; True when something was new."""
            new = False
            outs = [end] + ctx.breaks + [x[0] for x in f.exits[nexit0:]]
            for o in outs:
                if o.pc == 0 and o is not end:
                    continue
                for r in o.mem:
                    if r[0] == "tmp" and r not in entry.mem or r[0] in ("v", "heap") and r not in entry.mem:
                        continue
                    before = h.mem.get(r)
                    if before is None:
                        before = self.initial(r)
                    for path, kind in self.diff(before, o.mem[r], ()):
                        k = (r, path)
                        if any(r2 == r and path[:len(p2)] == p2 and len(p2) < len(path) and kd == "whole" for (r2, p2), kd in known.items()):
                            continue
                        if known.get(k) == "whole" or known.get(k) == kind:
                            continue
                        known[k] = kind
                        for k2 in [k2 for k2 in known if k2[0] == r and len(k2[1]) > len(path) and k2[1][:len(path)] == path]:
                            del known[k2]
                        new = True
            return new

        def heads():
            for k, kind in known.items():
                m = mk("mu", lid, k[0], k[1])
                L.mu[k] = m
                self.st = entry.fork()
                iv = self.rawread(k[0], k[1])
                L.init[k] = iv
                self.inherit_type(m, iv, k)
                if kind == "elem":
                    MUSIZE[m] = size(iv)
                else:
                    MUSIZE.pop(m, None)
        closed = {}
        nexts = {}
        reopened = set()
        for attempt in range(4):
            for it in range(12):
                head(closed)
                h = self.st.fork()
                c, _, end, ctx, _ = one_iteration()
                if c == 0 and not known and dowhile is None:
                    # no iteration at all: only the test happens
                    self.quiet -= 1
                    del self.deaths[dead0:]
                    del f.exits[nexit0:]
                    self.counter, self.loops, self.st = dict(snap), entry_loops, entry
                    L.cond, L.hi = 0, ZERO
                    cond()
                    self.st.pc = entry.pc
                    return
                if not discover(h, end, ctx):
                    break
                heads()
                closed = {k: v for k, v in closed.items() if k in known}
            else:
                self.miss("loop fixpoint")
            del self.deaths[dead0:]
            # closed forms
            for rnd in range(4):
                head(closed)
                h = self.st.fork()
                c, _, end, ctx, bodystart = one_iteration()
                if end.pc == 0:
                    break
                nexts = {}
                self.st = end
                for k in known:
                    nexts[k] = self.rawread(*k)
                prog = False
                for k, nx in nexts.items():
                    if k in closed:
                        if closed[k] is L.init[k] and nx is not L.init[k]:
                            reopened.add(k)
                            del closed[k]       # changed through a pointer resolved meanwhile
                            prog = True
                        continue
                    if k in reopened and nx is L.mu[k]:
                        continue
                    cf = self.closed_form(L, k, nx, closed, nexts)
                    if cf is not None:
                        closed[k] = cf
                        prog = True
                self.trip(L, c, ctx, h, bodystart, closed)
                if not prog:
                    break
            if end.pc == 0:
                break
            # locations reached only through what has a closed form now
            stale = [k for k in known if k[0][0] == "*" and any(x.op == "mu" and x.a[0] == lid for x in subterms(k[0][1]))
                     and (nexts.get(k) is L.mu[k] or nexts.get(k) is L.init[k])]
            if not stale:
                nk = dict(known)
                head(closed)
                h = self.st.fork()
                c, _, end, ctx, _ = one_iteration()
                if not discover(h, end, ctx):
                    break
                heads()
                continue
            for k in stale:
                del known[k]
                closed.pop(k, None)
                nexts.pop(k, None)
        L.next = nexts
        if getattr(self, "dbg", 0): print(L.site, "hi", L.hi and show(L.hi), bshow(L.residual), "end", end.pc, {str(k): (show(L.mu[k]), show(L.init[k]), show(nexts.get(k)) if nexts.get(k) is not None else None, show(closed[k]) if k in closed else None) for k in known})
        # own-element reads of element-wise written containers
        self.quiet -= 1
        # recorded pass
        del self.deaths[dead0:]
        head(closed)
        c, after_c, end, ctx, bodystart = one_iteration()
        L.cond = c
        self.loops = entry_loops
        deaths = self.deaths[dead0:]
        del self.deaths[dead0:]
        exits = f.exits[nexit0:]
        del f.exits[nexit0:]
        self.finish_loop(L, entry, known, closed, nexts, cond, ctx, exits, deaths, end, head)

    def rawread(self, root, path):
        v = self.memval(root)
        for e in path:
            v = sel(v, e)
        return v

    def rawwrite(self, root, path, x):
        old = self.memval(root)

        def go(v, i):
            return x if i == len(path) else upd(v, path[i], go(sel(v, path[i]), i + 1))
        self.st.mem[root] = go(old, 0)

    def inherit_type(self, m, iv, k):
        t = TYPE.get(iv)
        if t:
            TYPE[m] = t
        if iv.op == "mbegin":
            MAPIT[m] = (iv.a[0], iv.a[1], iv.a[3])
        if iv in MAPIT:
            MAPIT[m] = MAPIT[iv]
        if iv in ITER or any(x.op in ("begin",) for x in subterms(iv)) and iv.op in ("begin", "poly"):
            ITER.add(m)
        if not t and k[0][0] == "v" and not k[1]:
            t = self.roottype.get(k[0])
            if t:
                TYPE[m] = t
                if isiter(t):
                    ITER.add(m)

    def diff(self, before, after, path):
        """Paths at which `after` differs from `before`."""
        if before is after:
            return []
        if after.op == "upd":
            chain, base = [], after
            while base.op == "upd" and base is not before:
                chain.append((base.a[1], base.a[2]))
                base = base.a[0]
            if base is before or base.op == "ite" or before.op == "upd":
                if base is not before and before.op == "upd":
                    # compare field by field when all keys are fields
                    if all(e[0] == "." for e, _ in chain):
                        bb = before
                        while bb.op == "upd":
                            bb = bb.a[0]
                        if bb is base:
                            out = []
                            keys = {e for e, _ in chain}
                            x = before
                            while x.op == "upd":
                                keys.add(x.a[1])
                                x = x.a[0]
                            for e in keys:
                                if e[0] != ".":
                                    return [(path, "whole")]
                                out += self.diff(sel(before, e), sel(after, e), path + (e,))
                            return out
                    return [(path, "whole")]
                out = self.diff(before, base, path) if base is not before else []
                if any(p == path and k == "whole" for p, k in out):
                    return out
                for e, x in chain:
                    if e[0] == ".":
                        out += self.diff(sel(before, e), x, path + (e,))
                    elif e[0] == "[":
                        out.append((path, "elem"))
                    else:
                        out.append((path, "whole"))
                res = []
                if any(k == "elem" and p == path for p, k in out):
                    if any(e[0] == "." for e, _ in chain):
                        return [(path, "whole")]
                    return [(path, "elem")]
                return out
        if after.op == "ite":
            out = self.diff(before, after.a[1], path) + self.diff(before, after.a[2], path)
            if any(p == path and k == "whole" for p, k in out):
                return [(path, "whole")]
            return out
        if after.op == "rec" and before.op == "rec":
            out = []
            db_ = dict(before.a[0])
            for f_, x in after.a[0]:
                if f_ not in db_:
                    return [(path, "whole")]
                out += self.diff(db_[f_], x, path + ((".", f_),))
            return out
        if after.op == "upd" or before.op == "upd":
            pass
        return [(path, "whole")]

    def bind(self, L, t):
        """Abstracts the loop index."""
        return abstract(L.idx, t)

    def has_mu(self, L, t):
        for x in subterms(t):
            if x.op == "mu" and x.a[0] == L.id:
                return True
            if x.op in ("loopval", "trip", "firstexit", "loopexit") and x.a[0] != L.id:
                M = LOOPS.get(x.a[0])
                while M is not None and M.parent is not None:
                    if M.parent == L.id:
                        return True     # depends on this loop's state through the inner loop
                    M = LOOPS.get(M.parent)
        return False

    def closed_form(self, L, k, nx, closed, nexts):
        """Value of location k at the head of iteration idx, or None."""
        m = L.mu[k]
        iv = L.init[k]
        if nx is m:
            return iv
        if nx is iv:
            return iv           # rewritten with the value it had before the loop
        if isbool(iv) or nx.op == "b":
            return None
        # additive recurrences
        d = sub(nx, m) if not any(x.op in ("push", "upd", "str") for x in (nx,)) else None
        if d is not None and not self.has_mu(L, d) and self.numeric_like(m, iv, d):
            if d.op == "num":
                return add(iv, scale(L.idx, d.a[0]))
            if not any(x is L.idx for x in subterms(d)):
                if all(self.numeric_like(x, x, x) for x in [d]):
                    return add(iv, mul(L.idx, d))
            return add(iv, tsum(L.idx, self.bind(L, d)))
        if nx.op == "push" and nx.a[0] is m and not self.has_mu(L, nx.a[1]):
            return mapseq(iv, L.idx, self.bind(L, nx.a[1]))
        if nx.op == "popfront" and nx.a[0] is m:
            return mk("popfrontn", iv, L.idx)
        if nx.op == "upd" and nx.a[1][0] == "[" and nx.a[0] is m and not self.has_mu(L, nx.a[1][1]) \
                and not any(x is L.idx for x in subterms(nx.a[1][1])):
            e = nx.a[1]
            acc = self.accumulated(L, sel(m, e), sel(iv, e), nx.a[2])
            if acc is not None:
                return upd(iv, e, acc)
        return None

    def accumulated(self, L, old, init, new):
        """Closed form of one fixed element that every iteration adds to (field by field)."""
        if new is old:
            return init
        if new.op == "upd" and new.a[1][0] == ".":
            base = self.accumulated(L, old, init, new.a[0])
            e = new.a[1]
            x = self.accumulated(L, sel(old, e), sel(init, e), new.a[2])
            return None if base is None or x is None else upd(base, e, x)
        if isbool(new) or new.op in ("push", "upd", "str"):
            return None
        d = sub(new, old)
        if self.has_mu(L, d) or not self.numeric_like(old, init, d):
            return None
        return add(init, tsum(L.idx, self.bind(L, d)))

    def numeric_like(self, m, iv, d):
        bad = ("str", "rec", "seq0", "map0", "addr", "null", "closure", "pdefault", "upd", "push", "default", "fill",
               "resized", "status", "ret", "qpush", "qpop")
        return iv.op not in bad and d.op not in bad and not (d.op == "poly" and any(
            x.op in bad for mono, _ in d.a[0] for x, _ in mono))

    def trip(self, L, c, ctx, h, bodystart, closed):
        """Extracts the trip bound from the loop condition (or a leading conditional break)."""
        L.hi, L.residual = None, 1
        c = brestrict(c, h.pc)
        if ctx.breaks:
            b = ctx.breaks[0]
            same = all(b.mem.get(r) is v for r, v in bodystart.mem.items() if r in b.mem and r[0] != "tmp")
            if same:
                g = brestrict(b.pc, bodystart.pc)
                if self.range_lits(L, bnot(g)):
                    c = band(c, bnot(g))
        lits = self.range_lits(L, c)
        if not lits:
            hi = self.split_bound(L, c)
            if hi is not None:
                L.hi, L.residual = hi, 1
                return
        his = []
        rest = c
        for lit, hi in lits:
            his.append(hi)
            rest = brestrict(rest, lit)
        if his:
            L.hi = his[0] if len(set(his)) == 1 else mmin("i", *his)
            L.residual = rest
        else:
            L.residual = c

    def split_bound(self, L, c, depth=0):
        """Bound of a loop whose condition is a loop-invariant choice between tests against the index."""
        lits = self.range_lits(L, c)
        if lits:
            lit, hi = lits[0]
            return hi if len(lits) == 1 and brestrict(c, lit) == 1 else None
        if depth > 4:
            return None
        for a in batoms(c):
            if any(x is L.idx or x.op == "mu" and x.a[0] == L.id for x in subterms(a)):
                continue
            x, y = (self.split_bound(L, brestrict(c, g), depth + 1) for g in (atom(a), bnot(atom(a))))
            if x is None or y is None:
                return None
            return ite(atom(a), x, y)
        return None

    def range_lits(self, L, c):
        out = []
        for a in batoms(c):
            if a.op not in ("ge0", "eq0"):
                continue
            p = a.a[0]
            if self.has_mu(L, p):
                continue
            poly = topoly(p)
            co = poly.get(((L.idx, 1),))
            if co is None:
                continue
            r = sub(p, scale(L.idx, co))
            if any(x is L.idx for x in subterms(r)):
                continue
            n = atom(a)
            if a.op == "ge0":
                if co < 0 and implies(c, n):          # idx*|co| <= r
                    q = r if co == -1 else idiv(r, num(-co))
                    out.append((n, add(q, ONE)))
                elif co > 0 and implies(c, bnot(n)):  # idx*co + r < 0  <=> idx*co <= -r-1
                    q = sub(neg(r), ONE)
                    q = q if co == 1 else idiv(q, num(co))
                    out.append((bnot(n), add(q, ONE)))
            elif implies(c, bnot(n)) and abs(co) == 1:
                out.append((bnot(n), scale(r, -co)))
        return out

    def finish_loop(self, L, entry, known, closed, nexts, cond, ctx, exits, deaths, end, head):
        f = self.frames[-1]
        hi = L.hi
        idx = L.idx
        rel = lambda g: brestrict(g, entry.pc)
        X = 0
        for g in [b.pc for b in ctx.breaks] + [e[0].pc for e in exits] + deaths:
            X = bor(X, rel(g))
        L.exits = X
        boundable = lambda g: not self.has_mu(L, B(g))
        HI = hi if hi is not None else UNIT
        # objects created by the iterations
        for r, v in end.mem.items():
            if r[0] == "heap" and idx in r[3] and not self.has_mu(L, v):
                self.heapt[r[:3]] = (r[3], v)
        # breaks that only implement the range test do not count as early exits
        rangebreak = None
        if hi is not None and ctx.breaks and L.cond == 1 or (hi is not None and ctx.breaks and not self.range_lits(L, brestrict(L.cond, entry.pc))):
            rangebreak = ctx.breaks[0]
            X = 0
            for g in [b.pc for b in ctx.breaks[1:]] + [e[0].pc for e in exits] + deaths:
                X = bor(X, rel(g))
            inr = bnot(rel(rangebreak.pc))
            X = brestrict(X, inr) if inr != 0 else X
        L.early = X
        # number of iterations of a loop that is left through its condition
        if L.residual == 1 and hi is not None:
            N = hi
        elif boundable(L.residual) and L.residual != 1:
            N = mk("first", HI, self.bind(L, B(bnot(L.residual))))
        else:
            N = mk("trip", L.id)
        if N.op == "num" and N.a[0] < 0:
            N = ZERO
        L.bound = N
        if getattr(self, "dbg", 0): print("N", show(N), "X", bshow(L.exits), bshow(X), "rangebreak", rangebreak is not None, "ent", bshow(entry.pc))
        anyX = 0
        if X:
            anyX = atom_exists(N if N.op != "trip" else HI, self.bind(L, B(X))) if boundable(X) else atom(mk("loopexit", L.id))
        first = mk("first", HI, self.bind(L, B(X))) if X and boundable(X) else mk("firstexit", L.id)

        def at(i):
            def fn_(x):
                return i if x is idx else None
            memo = {}
            return lambda t: subst(t, fn_, memo)
        # normal exit
        atN = at(N)
        post = {}
        for k in known:
            post[k] = self.post_value(L, k, closed, nexts, N, atN)
        self.st = entry.fork(bnot(anyX))
        for k in sorted(known, key=lambda x: (len(x[1]), str(x))):
            self.rawwrite(k[0], k[1], post[k])
        # side effects of the final evaluation of the condition
        self.quiet += 1
        snap = dict(self.counter)
        dd = len(self.deaths)
        pc = self.st.pc
        if rangebreak is None:
            cond()
        del self.deaths[dd:]
        self.st.pc = pc
        self.counter = snap
        self.quiet -= 1
        normal = self.st
        if hi is None and L.residual == 1:
            normal.pc = 0
        at1 = at(first)
        for st in ctx.breaks:
            if st is rangebreak:
                continue
            g = rel(st.pc)
            gk = band(anyX, tobool(at1(B(g)))) if g != X else anyX
            s2 = St({r: at1(v) if r in entry.mem or r[0] not in ("v", "tmp") else v for r, v in st.mem.items()},
                    band(entry.pc, gk), entry.locks)
            normal = self.merge(normal, s2)
        for st, v, site in exits:
            g = rel(st.pc)
            gk = band(anyX, tobool(at1(B(g)))) if g != X else anyX
            s2 = St({r: at1(x) for r, x in st.mem.items()}, band(entry.pc, gk), entry.locks)
            f.exits.append((s2, at1(v), site))
        for d in deaths:
            g = rel(d)
            self.deaths.append(band(entry.pc, band(anyX, tobool(at1(B(g)))) if g != X else anyX))
        normal.locks = entry.locks
        self.st = normal

    def post_value(self, L, k, closed, nexts, N, atN):
        iv = L.init[k]
        if k in closed:
            return atN(closed[k])
        m = L.mu[k]
        nx = nexts.get(k)
        if nx is None:
            return iv
        r = self.summarise(L, k, m, iv, nx, N)
        if r is not None:
            return r
        v = mk("loopval", L.id, k[0], k[1])
        if m in TYPE:
            TYPE[v] = TYPE[m]
        if m in ITER:
            ITER.add(v)
        if m in MAPIT:
            MAPIT[v] = MAPIT[m]
        if m in MUSIZE:
            MUSIZE[v] = MUSIZE[m]
        return v

    def summarise(self, L, k, m, iv, nx, N):
        """Closed form of a location after the loop, when it is not an in-loop closed form."""
        if isbool(nx) or isbool(iv):
            n = tobool(nx)
            am = tobool(m)
            if am in (0, 1):
                return None
            a = bmap(n, lambda x: 0 if x is m else atom(x))
            b = bmap(n, lambda x: 1 if x is m else atom(x))
            if self.has_mu(L, B(a)) or self.has_mu(L, B(b)):
                return None
            i = tobool(iv)
            if b == 1:
                return B(bor(i, atom_exists(N, self.bind(L, B(a)))))
            if a == 0:
                return B(band(i, bnot(atom_exists(N, self.bind(L, B(bnot(b)))))))
            if N.op == "trip":
                return None
            if a == b:
                last = subst(B(a), lambda x: sub(N, ONE) if x is L.idx else None)
                return B(bor(band(ilt(ZERO, N), tobool(last)), band(bnot(ilt(ZERO, N)), i)))
            return B(atom(mk("lastof", B(i), N, self.bind(L, mk("pair", B(bor(a, bnot(b))), B(a))))))
        # element-wise writes
        if m in MUSIZE:
            w = self.elem_write(L, m, nx)
            if w is not None:
                key, val = w
                return mk("forw", iv, N, self.bind(L, mk("pair", key, val)))
            return None
        # conditional push
        if nx.op == "ite":
            c = nx.a[0]
            for cond, x, y in ((c, nx.a[1], nx.a[2]), (bnot(c), nx.a[2], nx.a[1])):
                if y is m and x.op == "push" and x.a[0] is m and not self.has_mu(L, x.a[1]) and not self.has_mu(L, B(cond)):
                    bb = self.bind(L, mk("pair", B(cond), x.a[1]))
                    return mk("filterseq", iv, N, bb)
                if y is m and not self.has_mu(L, x) and not self.has_mu(L, B(cond)):
                    bb = self.bind(L, mk("pair", B(cond), x))
                    return mk("lastof", iv, N, bb)
            both = self.both_push(nx, m)
            if both is not None and not self.has_mu(L, both):
                return mapseq(iv, N, self.bind(L, both))
        # map insert
        if nx.op == "upd" and nx.a[0] is m and nx.a[1][0] == "{" and not self.has_mu(L, nx.a[2]) and not self.has_mu(L, nx.a[1][1]):
            bb = self.bind(L, mk("pair", nx.a[1][1], nx.a[2]))
            return mk("mapfill", iv, N, bb)
        if nx.op == "mins" and nx.a[0] is m and not self.has_mu(L, nx.a[1]):
            return mk("setfill", iv, N, self.bind(L, nx.a[1]))
        if not self.has_mu(L, nx):
            # value of the last iteration
            if not any(x is L.idx for x in subterms(nx)):
                return ite(ilt(ZERO, N), nx, iv) if N.op != "trip" else mk("loopval", L.id, k[0], k[1])
            last = subst(nx, lambda x: sub(N, ONE) if x is L.idx else None)
            return ite(ilt(ZERO, N), last, iv) if N.op != "trip" else None
        return None

    def both_push(self, nx, m):
        if nx.op == "push" and nx.a[0] is m:
            return nx.a[1]
        if nx.op == "ite":
            a, b = self.both_push(nx.a[1], m), self.both_push(nx.a[2], m)
            if a is not None and b is not None:
                return ite(nx.a[0], a, b)
        return None

    def elem_write(self, L, m, nx):
        """nx = m with exactly one element (key) replaced by a value that reads only that element."""
        if nx.op == "ite":
            a = self.elem_write(L, m, nx.a[1]) if nx.a[1] is not m else None
            b = self.elem_write(L, m, nx.a[2]) if nx.a[2] is not m else None
            if nx.a[1] is m and b:
                return b[0], ite(nx.a[0], OWN, b[1])
            if nx.a[2] is m and a:
                return a[0], ite(nx.a[0], a[1], OWN)
            if a and b and a[0] is b[0]:
                return a[0], ite(nx.a[0], a[1], b[1])
            return None
        if nx.op != "upd" or nx.a[1][0] != "[":
            return None
        key = nx.a[1][1]
        base = nx.a[0]
        if base is not m or self.has_mu(L, key):
            return None
        el = sel(m, nx.a[1])
        val = subst(nx.a[2], lambda x: OWN if x is el else None)
        if self.has_mu(L, val):
            return None
        return key, val

    @property
    def deaths(self):
        return self.__dict__.setdefault("_deaths", [])

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        """Evaluates for side effects."""
        if e is None or self.st.pc == 0:
            return UNIT
        if e.get("lv"):
            return self.lv(e)
        return self.rv(e)

    def rv(self, e):
        """Value of expression e."""
        if e.get("lv") and e["k"] not in ("int", "float", "bool", "str"):
            p = self.lv(e)
            return self.read(p, e.get("t"))
        if e.get("l") and e["k"] in ("call", "mcall", "ctor", "icall", "new", "throw") and self.frames:
            self.cursite = (self.cursite[0], e["l"]) if e["l"] < 100000 and not e.get("tmp") else self.cursite
        return getattr(self, "e_" + e["k"])(e)

    def lv(self, e):
        """Address of glvalue e (rvalues are materialised)."""
        if not e.get("lv"):
            if e["k"] == "mat":
                return self.mat(e)
            return self.tmp(self.rv(e))
        m = getattr(self, "l_" + e["k"], None)
        if m is None:
            return self.tmp(getattr(self, "e_" + e["k"])(e))
        return m(e)

    def e_int(self, e):
        return num(int(e["v"]))

    def e_float(self, e):
        v = e["v"]
        try:
            return num(float(v))
        except (ValueError, OverflowError):
            return NAN

    def e_bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_str(self, e):
        return mk("str", e["v"])

    def l_str(self, e):
        return self.tmp(mk("str", e["v"]))

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        return self.frames[-1].this or mk("sym", "this")

    def e_zero(self, e):
        return self.default(e.get("t"), e.get("rec"))

    def default(self, ty, rc=None):
        d = default_of(ty)
        if d is not None:
            return d
        t = base_type(ty)
        b = sname(t)
        if b == "google::protobuf::util::status_internal::Status" or b.endswith("::Status"):
            return mk("status", ZERO, mk("str", ""))
        if b in ("std::pair", "std::tuple"):
            ta = split_targs(t)
            if b == "std::pair":
                return rec({"first": self.default(ta[0]), "second": self.default(ta[1])})
            return rec({str(i): self.default(x) for i, x in enumerate(ta)})
        if b == "std::function":
            return NULL
        r = self.db["recs"].get(rc or t) or self.db["recs"].get(t)
        if r:
            v = mk("default", t)
            # default member initialisers
            fields = self.all_fields(r)
            out = {}
            for fd in fields:
                if fd.get("init") is not None:
                    out[fd["name"]] = self.rv(fd["init"])
                else:
                    x = self.default(fd["t"], fd.get("rec"))
                    out[fd["name"]] = x
            return rec(out)
        return mk("default", t)

    def all_fields(self, r):
        out = []
        for b in r.get("bases") or ():
            br = self.db["recs"].get(b)
            if br:
                out += self.all_fields(br)
        return out + (r.get("fields") or [])

    def e_enum(self, e):
        v = e.get("v")
        return num(int(v)) if v is not None else mk("sym", "enum", e["name"])

    def l_var(self, e):
        return self.varaddr(e)

    def varaddr(self, e):
        f = self.frames[-1]
        a = f.env.get(e["id"])
        if a is not None:
            return a
        if e.get("g"):
            root = ("g", e["id"])
            if e.get("ref"):
                return self.read(self.addr(root))
            if (e.get("qn") or "").endswith("Status::OK"):
                return self.tmp(mk("status", ZERO, mk("str", "")))
            if "error::" in (e.get("qn") or ""):
                v = self.errcode(e["qn"])
                if v is not None:
                    return self.tmp(v)
            return self.addr(root)
        # unbound variable (e.g. captured in a lambda analysed on its own)
        root = ("free", e["id"])
        f.env[e["id"]] = a = self.addr(root)
        return a

    CODES = {n: i for i, n in enumerate(
        ["OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS",
         "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE",
         "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"])}

    def errcode(self, qn):
        n = qn.split("::")[-1]
        return num(self.CODES[n]) if n in self.CODES else None

    def e_var(self, e):
        return self.read(self.varaddr(e), e.get("t"))

    def l_binding(self, e):
        return self.tmp(mk("sym", "binding", e.get("name", "")))

    def l_mem(self, e):
        if e["e"]["k"] == "this" or e.get("arrow"):
            p = self.rv(e["e"])
            self.deref_event(p, e)
        else:
            p = self.lv(e["e"])
        a = self.field(p, (".", e["f"]))
        if e.get("ref"):
            return self.read(a)
        return a

    def deref_event(self, p, e):
        if not self.quiet and p.op not in ("addr",):
            self.emit("deref", ptr=p)

    def e_mem(self, e):
        if e.get("lv"):
            return self.read(self.l_mem(e), e.get("t"))
        b = self.rv(e["e"])
        return sel(b, (".", e["f"]), base_type(e.get("t")))

    def l_idx(self, e):
        b, i = e.get("a") or e["e"], e.get("b") or e["i"]
        p = self.rv(b) if not b.get("lv") or "[" not in (b.get("t") or "") else self.lv(b)
        return self.ptr_add(p, self.rv(i))

    def ptr_add(self, p, i):
        def g(q, k):
            if q.op == "addr" and q.a[1] and q.a[1][-1][0] == "[":
                return self.addr(q.a[0], q.a[1][:-1] + (("[", add(q.a[1][-1][1], k)),))
            return self.addr(*((lambda r, p_: (r, p_ + (("[", k),)))(*self.locs(q))))
        return lift(g, p, i)

    def l_un(self, e):
        op = e["op"]
        if op == "*":
            p = self.rv(e["e"])
            self.deref_event(p, e)
            return self.itderef(p)
        if op in ("++", "--"):
            a = self.lv(e["e"])
            v = self.read(a, e["e"].get("t"))
            self.write(a, add(v, ONE if op == "++" else num(-1)))
            return a
        return self.tmp(self.rv_un(e))

    def e_un(self, e):
        if e.get("lv"):
            return self.read(self.l_un(e), e.get("t"))
        return self.rv_un(e)

    def rv_un(self, e):
        op = e["op"]
        if op == "&":
            return self.lv(e["e"])
        if op in ("++post", "--post"):
            a = self.lv(e["e"])
            v = self.read(a, e["e"].get("t"))
            self.write(a, add(v, ONE if op == "++post" else num(-1)))
            return v
        v = self.rv(e["e"])
        if op == "!":
            return B(bnot(tobool(v)))
        if op == "-":
            if self.raw and self.arith_type(e) == "f":
                return lift(lambda x: mk("fop", "-", ZERO, x), v)
            return neg(v)
        if op == "+":
            return v
        if op == "~":
            return fn("bitnot", v)
        return fn("un" + op, v)

    def arith_type(self, e):
        t = base_type(e.get("t"))
        if t in FLOATS:
            return "f"
        if t in INTS:
            return "i"
        if "*" in t or "nullptr" in t:
            return "p"
        return "i"

    def e_bin(self, e):
        op = e["op"]
        if op == "&&" or op == "||":
            c = tobool(self.rv(e["a"]))
            pre = self.st
            g = c if op == "&&" else bnot(c)
            self.st = pre.fork(g)
            d = tobool(self.rv(e["b"])) if self.st.pc else (1 if op == "&&" else 0)
            self.st = self.merge(self.st, pre.fork(bnot(g)), g) if self.st.pc else pre.fork(bnot(g))
            if self.st.pc == pre.pc:
                self.st.locks = pre.locks
            return B(band(c, d) if op == "&&" else bor(c, d))
        if op == ",":
            self.ev(e["a"])
            return self.rv(e["b"])
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        return self.binop(op, a, b, self.arith_type(e["a"]), self.arith_type(e["b"]), self.arith_type(e))

    def binop(self, op, a, b, ta, tb, tr):
        if op in ("==", "!="):
            g = self.equal(a, b, ta)
            return B(g if op == "==" else bnot(g))
        if op in ("<", ">", "<=", ">="):
            if op[0] == ">":
                a, b = b, a
            if "f" in (ta, tb):
                g = flt(a, b) if len(op) == 1 else fle(a, b)
            else:
                g = ilt(a, b) if len(op) == 1 else ile(a, b)
            return B(g)
        if self.raw and tr == "f" and op in ("+", "-", "*", "/"):
            return lift(lambda x, y: mk("fop", op, x, y), a, b)
        if op == "+":
            if ta == "p" or tb == "p":
                return self.ptr_add(a, b) if ta == "p" else self.ptr_add(b, a)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if tr == "f":
                self.emit("fdiv", num=a, den=b)
                return div(a, b)
            self.emit("idiv", num=a, den=b, op=op)
            return idiv(a, b)
        if op == "%":
            self.emit("idiv", num=a, den=b, op=op)
            return imod(a, b)
        if op in ("&", "|") and isbool(a) and isbool(b):
            return B(band(a.a[0], b.a[0]) if op == "&" else bor(a.a[0], b.a[0]))
        return fn("op" + op, a, b)

    def equal(self, a, b, ty):
        if ty == "f":
            if a is b and a.op not in ("num", "huge"):      # x == x holds for everything but NaN
                return bnot(tobool(fn("isnan", a)))
            return feq(a, b)
        if isbool(a) or isbool(b):
            x, y = tobool(a), tobool(b)
            return bnot(bite(x, bnot(y), y))
        if ty == "p":
            return self.ptr_eq(a, b)
        return ieq(a, b)

    def ptr_eq(self, a, b):
        def g(x, y):
            if x is y:
                return TRUE
            for p, q in ((x, y), (y, x)):
                if q.op == "null":
                    return B(bnot(tobool(p)))
            if x.op == "addr" and y.op == "addr":
                if x.a[0] == y.a[0] or x.a[0][0] != y.a[0][0]:
                    return FALSE
            if any(z.op in ("poly", "begin") or z in ITER for z in (x, y)):
                return B(eq0(sub(x, y)))
            x, y = sorted((x, y))
            return B(atom(mk("peq", x, y)))
        return tobool(lift(g, a, b))

    def l_bin(self, e):
        if e["op"] == ",":
            self.ev(e["a"])
            return self.lv(e["b"])
        return self.tmp(self.e_bin(e))

    def l_assign(self, e):
        b = e["b"]
        x = self.rv(b)
        a = self.lv(e["a"])
        self.write(a, x)
        return a

    def e_assign(self, e):
        return self.read(self.l_assign(e), e.get("t"))

    def l_cassign(self, e):
        x = self.rv(e["b"])
        a = self.lv(e["a"])
        v = self.read(a, e["a"].get("t"))
        op = e["op"].rstrip("=") if e["op"] not in ("<<=", ">>=") else e["op"][:-1]
        ty = "f" if base_type(e.get("ct") or e["a"].get("t")) in FLOATS else self.arith_type(e["a"])
        self.write(a, self.binop(op, v, x, ty, self.arith_type(e["b"]), ty), e["op"])
        return a

    def e_cassign(self, e):
        return self.read(self.l_cassign(e), e.get("t"))

    def branch(self, e, f):
        c = tobool(self.rv(e["c"]))
        pre = self.st
        self.st = pre.fork(c)
        a = f(e["a"]) if self.st.pc else None
        sa = self.st
        self.st = pre.fork(bnot(c))
        b = f(e["b"]) if self.st.pc else None
        sb = self.st
        ok = sa.pc == band(pre.pc, c) and sb.pc == band(pre.pc, bnot(c))
        self.st = self.merge(sa, sb, c if ok else None)
        if a is None or sa.pc == 0 and b is not None:
            return b if b is not None else UNIT
        if b is None or sb.pc == 0:
            return a
        return ite(c, a, b)

    def e_cond(self, e):
        return self.branch(e, lambda x: self.rv(x) if base_type(e.get("t")) != "void" else self.ev(x))

    def l_cond(self, e):
        return self.branch(e, self.lv)

    def e_cast(self, e):
        ck = e["ck"]
        if ck == "ToVoid":
            self.ev(e["e"])
            return UNIT
        if ck in ("ArrayToPointerDecay",):
            if e["e"]["k"] == "str":
                return mk("str", e["e"]["v"])
            return self.lv(e["e"])
        if ck == "FunctionToPointerDecay":
            return self.rv(e["e"])
        v = self.rv(e["e"])
        if ck == "NullToPointer":
            return NULL
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
            if ck == "IntegralToBoolean":
                return B(bnot(ieq(v, ZERO)))
            if ck == "FloatingToBoolean":
                return B(bnot(feq(v, ZERO)))
            return B(tobool(v))
        if ck == "FloatingToIntegral":
            return lift(lambda x: x if x.op == "num" and x.a[0].denominator == 1 else fn("toint", x), v)
        if ck in ("IntegralCast", "IntegralToFloating"):
            if isbool(v) and base_type(e["t"]) != "bool":
                return ite(v.a[0], ONE, ZERO)
            t = base_type(e["t"])
            if ck == "IntegralToFloating" and t == "float" and v.op != "num":
                self.emit("i2f", val=v)
            if t in ("unsigned char", "signed char", "char", "unsigned short", "short") and v.op != "num" and \
                    base_type(e.get("ft")) not in (t, "unsigned char"):
                return fn("narrow", num(8 if "char" in t else 16), v)
            if "!wrap" in self.opaque and v.op != "num" and UNSIGNED.match(t) and SIGNED.match(base_type(e.get("ft") or "")):
                return fn("narrow", num(32 if t == "unsigned int" else 64), v)
            return v
        if ck == "FloatingCast":
            if base_type(e["t"]) == "float" and v.op != "num":
                self.emit("d2f", val=v)
            return v
        if ck in ("BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase"):
            if ck == "BaseToDerived":
                self.emit("downcast", ptr=v, to=base_type(e["t"]).rstrip("*& ").strip())
            return v
        return v

    def l_cast(self, e):
        a = self.lv(e["e"])
        if e["ck"] == "BaseToDerived":
            self.emit("downcast", ptr=a, to=base_type(e["t"]).rstrip("*& ").strip())
        return a

    def e_mat(self, e):
        return self.rv(e["e"])

    def l_mat(self, e):
        return self.mat(e)

    def mat(self, e):
        x = e["e"]
        if x["k"] == "ctor" and self.user_ctor(x):
            root = ("tmp", self.fresh("tmp"))
            self.roottype[root] = x.get("rec")
            self.construct(self.addr(root), x)
            return self.addr(root)
        if x.get("lv"):
            return self.lv(x)
        a = self.tmp(self.rv(x))
        if x.get("rec"):
            self.roottype[a.a[0]] = x["rec"]
        return a

    def e_lambda(self, e):
        caps = []
        for c in e["caps"]:
            if c["mode"] == "this":
                caps.append(("this", "this", self.rv({"k": "this"})))
            elif c["mode"] == "ref":
                if c.get("init") is not None:
                    caps.append((c["var"], "ref", self.lv(c["init"])))
                else:
                    caps.append((c["var"], "ref", self.varaddr({"id": c["var"]})))
            else:
                if c.get("init") is not None:
                    v = self.rv(c["init"])
                else:
                    v = self.read(self.varaddr({"id": c["var"]}))
                caps.append((c["var"], "copy", v))
        return mk("closure", e["fn"], tuple(caps))

    def e_fnref(self, e):
        return mk("fnref", e["fn"], e.get("name", ""))

    def l_fnref(self, e):
        return self.e_fnref(e)

    def e_list(self, e):
        if e.get("rec") and e.get("fields") is not None:
            return rec({f: self.rv(x) for f, x in zip(e["fields"], e["e"])})
        v = EMPTY
        for x in e["e"]:
            v = push(v, self.rv(x))
        return v

    def e_initlist(self, e):
        return self.rv(e["e"])

    def e_opaque(self, e):
        self.miss("expr " + str(e.get("what")))
        return mk("opaque", str(e.get("what")), self.fresh("opq"))

    def e_delete(self, e):
        p = self.rv(e["e"])
        self.emit("delete", ptr=p, by=None)
        return UNIT

    def e_new(self, e):
        root = ("heap", "%s:%s" % (self.cursite[0], e.get("l", self.cursite[1])), self.fresh("heap"),
                tuple(LOOPS[l].idx for l in self.loops))
        a = self.addr(root)
        t = base_type(e.get("t", "")).rstrip("*").strip()
        self.roottype[root] = t
        if e.get("init") is not None:
            i = e["init"]
            if i.get("rec"):
                self.roottype[root] = i["rec"]
            self.init_at(a, i)
        self.emit("new", ptr=a, type=t)
        return a

    def e_throw(self, e):
        v = self.rv(e["e"]) if e.get("e") is not None else UNIT
        self.emit("throw", val=v, type=e.get("tt"))
        self.die()
        return UNIT

    def die(self):
        if self.st.pc:
            self.deaths.append(self.st.pc)
        self.st = St(self.st.mem, 0, self.st.locks)

    # ------------------------------------------------------------ construction
    def user_ctor(self, e):
        f = self.db["fns"].get(e.get("fn"))
        return f is not None and f.get("body") is not None and not f.get("implicit") and not (e.get("copy") or e.get("move"))

    def e_ctor(self, e):
        if e.get("copy") or e.get("move"):
            x = e["args"][0]
            v = self.rv(x)
            if e.get("move"):
                self.moved(x, e)
            return v
        if self.user_ctor(e):
            root = ("tmp", self.fresh("tmp"))
            self.roottype[root] = e.get("rec")
            a = self.addr(root)
            self.construct(a, e)
            return self.memval(root)
        from . import lib
        return lib.construct(self, e)

    def l_ctor(self, e):
        return self.tmp(self.e_ctor(e))

    def moved(self, x, e):
        while x["k"] in ("cast",) or x["k"] == "call" and sname(x.get("name")) == "std::move":
            x = x["e"] if x["k"] == "cast" else x["args"][0]
        if x.get("lv"):
            t = base_type(x.get("t"))
            if t.startswith("std::unique_ptr"):
                self.quiet += 1
                a = self.lv(x)
                self.quiet -= 1
                self.write(a, NULL, "move")

    def construct(self, a, e):
        f = self.db["fns"][e["fn"]]
        args = self.bind_args(f, e["args"])
        root, path = self.locs(a)
        v = self.default(e.get("t") or f.get("rec"), f.get("rec")) if not f.get("ctor") else mk("default", f.get("rec") or "")
        self.rawwrite(root, path, v)
        self.call_fn(f, a, args, exact=f.get("rec"))

    # ------------------------------------------------------------ calls
    def bind_args(self, f, args):
        """Evaluates arguments for parameters of f: addresses for references, values otherwise."""
        out = []
        ps = f.get("params") or []
        for i, x in enumerate(args):
            p = ps[i] if i < len(ps) else None
            out.append(self.lv(x) if p is not None and p.get("ref") else self.rv(x))
        return out

    def short(self, f):
        n = sname(f["name"])
        return n[6:] if n.startswith("gbdt::") else n

    def call_fn(self, f, this, args, exact=None):
        """Inlines a call; args are already evaluated."""
        n = self.short(f)
        mode = self.opaque.get(n) or self.opaque.get(n.split("::")[-1])
        if mode is None and "!pred" in self.opaque:
            mode = self.opaque["!pred"](f)
        if mode is None and (f.get("body") is None):
            mode = "effect"
        if len(self.frames) == 1 and self.frames[0].fn["id"] == "<entry>" and self.entry == f["id"]:
            mode = None     # the entry point itself is always analysed
        rec_ = any(fr.fn["id"] == f["id"] for fr in self.frames)
        if mode is None and (rec_ and not f.get("islambda") or len(self.frames) > self.MAXDEPTH):
            mode = "rec"
        if callable(mode):
            return mode(self, f, this, args)
        if n.startswith("ThreadPool::") and "ThreadPool" not in self.opaque.get("!inline", ()):
            return self.pool_call(f, n, this, args)
        if mode:
            return self.opaque_call(f, n, this, args, mode)
        self.emit("enter", fn=n, this=this, args=tuple(args))
        fr = Frame(f, this, self.fresh("frame"))
        for p, v in zip(f.get("params") or [], args):
            if p.get("ref"):
                fr.env[p["id"]] = v
            else:
                root = ("v", p["id"], fr.no)
                fr.env[p["id"]] = self.addr(root)
                self.roottype[root] = p.get("rec") or base_type(p["t"])
                self.st.mem[root] = v
                if v.op in ("sym",) and v not in TYPE:
                    TYPE[v] = base_type(p["t"])
                    if isiter(p["t"]):
                        ITER.add(v)
        return self.run(fr, exact)

    def pool_call(self, f, n, this, args):
        """The thread pool is a primitive: constructed with a size, runs every enqueued task before
        its destructor returns (property C03 of the pool itself)."""
        m = n.split("::")[-1]
        if m == "ThreadPool":
            self.emit("pool", pool=this, n=args[0] if args else None)
            root, path = self.locs(this)
            self.rawwrite(root, path, mk("pool"))
            return UNIT
        if m == "Enqueue":
            c = args[0]
            if (f.get("params") or [{}])[0].get("ref"):
                c = self.qread(c)
            k = self.fresh("task")
            self.enqueued = True
            self.emit("enqueue", pool=this, task=c, no=k, frame=self.fresh("frame"), tmp=self.fresh("tmp"))
            old = self.tasks
            self.tasks = self.tasks + ((k, this, self.loops),)
            locks = self.st.locks
            self.st.locks = ()
            try:
                self.call_closure(c, [])
            finally:
                self.tasks = old
                self.st.locks = locks
            return UNIT
        return UNIT

    def run(self, fr, exact=None):
        f = fr.fn
        self.analysed.add(f["id"])
        self.frames.append(fr)
        site, locks = self.cursite, self.st.locks
        self.cursite = (f.get("file", ""), f.get("l", 0))
        try:
            for i in f.get("inits") or ():
                if i.get("e") is None:
                    continue
                if "f" in i:
                    a = self.field(fr.this, (".", i["f"]))
                    if i.get("ref") or self.is_ref_field(f.get("rec"), i["f"]):
                        self.write(a, self.lv(i["e"]), "init")
                    else:
                        self.init_at(a, i["e"])
                elif i.get("base") or i.get("deleg"):
                    x = i["e"]
                    if x["k"] == "ctor" and self.user_ctor(x):
                        g = self.db["fns"][x["fn"]]
                        self.call_fn(g, fr.this, self.bind_args(g, x["args"]), exact)
            self.stmt(f.get("body"))
            if self.st.pc:
                fr.exits.append((self.st, UNIT, self.cursite))
                if f.get("rt") == "void" or f.get("ctor"):
                    self.emit("return", val=UNIT, depth=len(self.frames))
        finally:
            self.frames.pop()
            self.cursite = site
        st, v = None, None
        for s, x, _ in fr.exits:
            if s.pc == 0:
                continue
            if st is None:
                st, v = s, x
            else:
                c = brestrict(s.pc, bor(st.pc, s.pc))
                v = ite(c, x, v)
                st = self.merge(s, st, c)
        if st is None:
            self.st = St(self.st.mem, 0, locks)
            return UNIT
        # locals of the frame are gone
        no = fr.no
        st.mem = {r: x for r, x in st.mem.items() if not (r[0] == "v" and r[2] == no) or self.escapes(r)}
        st.locks = locks
        self.st = st
        return v

    def escapes(self, r):
        return True

    def is_ref_field(self, rc, f):
        r = self.db["recs"].get(rc)
        if r:
            for fd in self.all_fields(r):
                if fd["name"] == f:
                    return bool(fd.get("ref"))
        return False

    def opaque_call(self, f, n, this, args, mode):
        vals = []
        ps = f.get("params") or []
        for i, v in enumerate(args):
            p = ps[i] if i < len(ps) else {}
            if p.get("ref") and p.get("t", "").startswith("const "):
                vals.append(self.qread(v, p["t"]))
            else:
                vals.append(v)
        key = n
        if mode in ("pure", "purev"):
            a = tuple(vals)
            if f.get("rec") and not f.get("static") and this is not None:
                a = (self.qread(this) if mode == "purev" else this,) + a
            r = mk("ret", key, a)
            self.emit("call", fn=n, this=this, args=tuple(vals), ret=r, mode=mode, rawargs=tuple(args), fid=f["id"])
        else:
            cid = self.fresh("call:" + key)
            a = tuple(vals)
            r = mk("ret", key, a, cid, tuple(LOOPS[l].idx for l in self.loops))
            self.emit("call", fn=n, this=this, args=tuple(vals), ret=r, mode=mode, rawargs=tuple(args), fid=f["id"])
            # effects: pointees of non-const pointer / reference parameters and *this change
            tgt = []
            for i, v in enumerate(args):
                t = ps[i].get("t", "") if i < len(ps) else ""
                ref = ps[i].get("ref") if i < len(ps) else None
                if (ref or t.rstrip().endswith("*")) and not t.startswith("const ") and v.op != "null":
                    tgt.append((i, v))
            if this is not None and not f.get("const") and not f.get("static") and f.get("rec"):
                tgt.append(("this", this))
            for i, p in tgt:
                old = self.qread(p)
                self.write(p, mk("out", key, cid, i, tuple(LOOPS[l].idx for l in self.loops), old), "call")
        ty = base_type(f.get("rt"))
        if r not in TYPE:
            TYPE[r] = ty
            if isiter(ty):
                ITER.add(r)
        if ty == "bool":
            return B(atom(r))
        return r

    def qread(self, p, ty=None):
        tm = self.trace_mem
        self.trace_mem = False
        try:
            return self.read(p, ty)
        finally:
            self.trace_mem = tm

    def result(self, e, r):
        return r

    def e_call(self, e):
        return self.call_value(e, self.do_call(e))

    def l_call(self, e):
        return self.do_call(e)

    def call_value(self, e, r):
        if e.get("lv"):
            return self.read(r, e.get("t"))
        return r

    def do_call(self, e):
        f = self.db["fns"].get(e.get("fn"))
        n = sname(e.get("name"))
        if f is not None and (f.get("body") is not None) or e.get("src"):
            if f is None:
                f = {"id": e["fn"], "name": e.get("name", "?"), "params": [{"t": t, "ref": t.endswith("&")} for t in e.get("pt", [])], "rt": e.get("rt")}
            if not f.get("implicit"):
                r = self.call_fn(f, None, self.bind_args(f, e["args"]))
                if e.get("noret"):
                    self.die()
                return r
        from . import lib
        return lib.call(self, e, n)

    def e_mcall(self, e):
        return self.call_value(e, self.do_mcall(e))

    def l_mcall(self, e):
        return self.do_mcall(e)

    def obj_addr(self, e):
        o = e["obj"]
        if e.get("arrow"):
            p = self.rv(o)
            self.deref_event(p, e)
            return p
        return self.lv(o)

    def do_mcall(self, e):
        f = self.db["fns"].get(e.get("fn"))
        n = sname(e.get("name"))
        if e.get("islambda") or f is not None and f.get("islambda"):
            c = self.rv(e["obj"])
            return self.call_closure(c, [("e", x) for x in e["args"]], e)
        if f is not None and f.get("implicit") and f.get("body") is None or f is not None and n.endswith("::operator=") and f.get("implicit"):
            f = None
        if f is not None:
            this = self.obj_addr(e)
            args = self.bind_args(f, e["args"])
            if e.get("virt") and not e.get("qual"):
                return self.virtual(e, f, this, args)
            return self.call_fn(f, this, args)
        if e.get("virt") and e.get("fn") in self.over:
            this = self.obj_addr(e)
            ov = self.db["fns"][self.over[e["fn"]][0]]
            args = self.bind_args(ov, e["args"])
            return self.virtual(e, {"id": e["fn"], "name": e["name"], "params": ov["params"], "rt": ov["rt"],
                                    "const": e.get("const"), "rec": e.get("rec")}, this, args)
        if e.get("src") and f is None:
            this = self.obj_addr(e)
            ff = {"id": e["fn"], "name": e["name"], "params": [{"t": t, "ref": t.endswith("&")} for t in e.get("pt", [])],
                  "rt": e.get("rt"), "const": e.get("const"), "rec": e.get("rec")}
            if "gbdt" in e["name"].split("<")[0] or e.get("rec") in self.db["recs"]:
                if not n.endswith("::operator="):
                    return self.call_fn(ff, this, self.bind_args(ff, e["args"]))
        from . import lib
        return lib.mcall(self, e, n)

    def overriders(self, id):
        out, st = [], [id]
        while st:
            x = st.pop()
            if x not in out:
                out.append(x)
                st += self.over.get(x, [])
        return out

    def bases(self, rc):
        out, st = [], [rc]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.append(x)
            r = self.db["recs"].get(x)
            if r:
                st += r.get("bases") or []
        return out

    def dyn_type(self, p):
        if p.op == "addr" and not p.a[1]:
            return self.roottype.get(p.a[0])
        if p.op == "addr" and p.a[0][0] == "*":
            return None
        return self.roottype.get(("*", p))

    def virtual(self, e, f, this, args):
        def go(p):
            t = self.dyn_type(p)
            if t:
                for b in self.bases(t):
                    for o in self.overriders(e["fn"]):
                        g = self.db["fns"].get(o)
                        if g and g.get("rec") == b and g.get("body") is not None:
                            return self.call_fn(g, p, args)
            cands = [self.db["fns"][o] for o in self.overriders(e["fn"])
                     if o in self.db["fns"] and self.db["fns"][o].get("body") is not None]
            n = self.short(f)
            if n in self.opaque or n.split("::")[-1] in self.opaque:
                return self.call_fn(f, p, args)
            if len(cands) == 1:
                return self.call_fn(cands[0], p, args)
            g = dict(f)
            g.pop("body", None)
            mode = "pure" if e.get("const") else "effect"
            return self.opaque_call(g, n, p, args, mode)
        if this.op == "ite":
            pre = self.st
            c = this.a[0]
            self.st = pre.fork(c)
            a = self.virtual(e, f, this.a[1], args) if self.st.pc else UNIT
            sa = self.st
            self.st = pre.fork(bnot(c))
            b = self.virtual(e, f, this.a[2], args) if self.st.pc else UNIT
            sb = self.st
            self.st = self.merge(sa, sb)
            return ite(c, a, b)
        return go(this)

    def e_icall(self, e):
        c = self.rv(e["callee"] if "callee" in e else e["e"])
        return self.call_closure(c, [("e", x) for x in e["args"]], e)

    def l_icall(self, e):
        return self.e_icall(e)

    def arg_val(self, a):
        return self.rv(a[1]) if a[0] == "e" else self.read(a[1]) if a[0] == "a" else a[1]

    def arg_addr(self, a):
        return self.lv(a[1]) if a[0] == "e" else a[1] if a[0] == "a" else self.tmp(a[1])

    def call_closure(self, c, args, e=None):
        """Calls a function value. args: list of ('e', expr) | ('v', value) | ('a', address)."""
        if c.op == "init" and len(c.a[0]) == 2 and c.a[0][0] == "*" and isinstance(c.a[0][1], Term) and c.a[0][1].op == "fnref":
            c = c.a[0][1]
        if c.op == "ite":
            # evaluate arguments once
            args = [x if x[0] != "e" else (("a", self.lv(x[1])) if x[1].get("lv") else ("v", self.rv(x[1]))) for x in args]
            pre = self.st
            g = c.a[0]
            self.st = pre.fork(g)
            a = self.call_closure(c.a[1], args, e) if self.st.pc else None
            sa = self.st
            self.st = pre.fork(bnot(g))
            b = self.call_closure(c.a[2], args, e) if self.st.pc else None
            sb = self.st
            self.st = self.merge(sa, sb)
            return b if a is None else a if b is None else ite(g, a, b)
        if c.op == "closure":
            f = self.db["fns"].get(c.a[0])
            if f is not None:
                vals = []
                for p, x in zip(f.get("params") or [], args):
                    vals.append(self.arg_addr(x) if p.get("ref") else self.arg_val(x))
                fr = Frame(f, None, self.fresh("frame"))
                for v, kind, val in c.a[1]:
                    if kind == "this":
                        fr.this = val
                    elif kind == "ref":
                        fr.env[v] = val
                    else:
                        root = ("v", v, fr.no)
                        fr.env[v] = self.addr(root)
                        self.st.mem[root] = val
                for p, v in zip(f.get("params") or [], vals):
                    if p.get("ref"):
                        fr.env[p["id"]] = v
                    else:
                        root = ("v", p["id"], fr.no)
                        fr.env[p["id"]] = self.addr(root)
                        self.st.mem[root] = v
                if sum(1 for x in self.frames if x.fn["id"] == f["id"]) > 2:
                    return mk("ret", "rec", c.a[0])
                r = self.run(fr)
                if f.get("rt", "").endswith("&") and not (e and e.get("lv")):
                    r = self.read(r)
                return r
        if c.op == "fnref":
            f = self.db["fns"].get(c.a[0])
            if f is not None:
                vals = [self.arg_addr(x) if p.get("ref") else self.arg_val(x) for p, x in zip(f.get("params") or [], args)]
                return self.call_fn(f, None, vals)
            from . import lib
            return lib.call_ref(self, c, args)
        if c.op == "bind":
            tgt, bound = c.a[0], c.a[1]
            out = []
            for kind, b in bound:
                if b.op == "ph":
                    out.append(args[b.a[0] - 1])
                elif kind == "ref":
                    out.append(("a", b))
                else:
                    out.append(("v", b))
            if tgt.op == "fnref":
                f = self.db["fns"].get(tgt.a[0])
                if f is not None and f.get("rec") and not f.get("static"):
                    return self.call_fn(f, self.arg_val(out[0]), [
                        self.arg_addr(x) if p.get("ref") else self.arg_val(x) for p, x in zip(f.get("params") or [], out[1:])])
            return self.call_closure(tgt, out, e)
        if c.op == "null":
            return UNIT
        vals = tuple(self.arg_val(x) for x in args)
        r = mk("icall", c, vals)
        self.emit("icall", fn=c, args=vals, ret=r)
        t = base_type((e or {}).get("t"))
        if t and r not in TYPE:
            TYPE[r] = t
        if t == "bool":
            return B(atom(r))
        return r

    # ------------------------------------------------------------ entry points
    def enter(self, f, this_type=None, args=None, this=None, pre=None):
        """Analyses function f as an entry point with symbolic arguments. Returns (value, state)."""
        fr_args = []
        for k, p in enumerate(f.get("params") or []):
            if args and k < len(args) and args[k] is not None:
                fr_args.append(args[k])
                continue
            s = mk("sym", "arg", k)
            if p.get("ref"):
                root = ("arg", k)
                ITER.discard(mk("init", root))
                TYPE.pop(mk("init", root), None)
                self.roottype.setdefault(root, p.get("rec"))
                fr_args.append(self.addr(root))
            else:
                t = base_type(p["t"])
                TYPE[s] = t
                ITER.discard(s)
                if isiter(p["t"]):
                    ITER.add(s)
                fr_args.append(B(atom(s)) if t == "bool" else s)
        if this is None and f.get("rec") and not f.get("static"):
            root = ("this",)
            if this_type:
                self.roottype[root] = this_type
            this = self.addr(root)
            if f.get("ctor"):
                self.st.mem[root] = mk("default", f.get("rec"))
        if pre:
            pre(self)
        base = Frame({"name": "<entry>", "id": "<entry>", "file": f.get("file", "")})
        self.frames.append(base)
        try:
            self.roots_at_entry = dict(self.st.mem)
            self.entry = f["id"]
            v = self.call_fn(f, this, fr_args)
        finally:
            self.frames.pop()
        return v, self.st



MUSIZE = {}


def _size_hook(v):
    return MUSIZE.get(v)


def _sel_hook(v, e, ty):
    return None


LOOPHOOK["size"] = _size_hook
LOOPHOOK["sel"] = _sel_hook


def load_protos(repo):
    import glob, os
    for f in glob.glob(os.path.join(repo, "src/proto/*.proto")):
        s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(f).read(), flags=re.S)
        for m in re.finditer(r"message\s+(\w+)\s*\{(.*?)\}", s, re.S):
            fs = {}
            for x in re.finditer(r"(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+", m.group(2)):
                fs[x.group(3)] = ("repeated" if x.group(1) else "optional", x.group(2))
            PROTO[m.group(1)] = fs
