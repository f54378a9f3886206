"""Shared parts of checks that summarise functions with calls left abstract and interpret those calls by their specification."""
import random
from ..core import *

F = Fraction


def event_of(I, cid, fn=None):
    """The call event an out/ret term with this call id belongs to."""
    for e in I.events:
        if e.kind == "call" and e.ret is not None and e.ret.op == "ret" and len(e.ret.a) > 2 and e.ret.a[2] == cid and \
                (fn is None or e.fn == fn or e.fn.split("::")[-1] == str(fn).split("::")[-1]):
            return e
    raise EV.Unknown("call %s" % cid)


def args_of(I, key, env, this=False):
    """Evaluated arguments of the abstract call a leaf key ('out', fn, cid, pos, idxs, old) | ('ret', fn, args, cid, idxs) belongs to."""
    if key[0] == "ret":
        return list(key[2])
    e = event_of(I, key[2], key[1])
    sv = dict(env.dyn)
    for l, v in zip(e.loops, key[4]):
        env.dyn[IN.LOOPS[l].idx] = F(v)
    try:
        return [EV.ev(a, env) for a in e.args]
    finally:
        env.dyn = sv


def fnname(k):
    return str(k[1]).split("::")[-1]


def field_step(a):
    """Last field of an address value, e.g. 'left_child'."""
    if isinstance(a, tuple) and a and a[0] == "addr" and a[2]:
        x = a[2][-1]
        return x[1] if x[0] == "." else None
    return None


def recursive(I):
    """Ids of the functions whose recursive calls were cut."""
    return {e.callee for e in I.events if e.kind == "call" and e.mode == "rec"}


def trace(evs, env, depth=0):
    """Events that happen under an interpretation, in execution order, with the loop indices set."""
    i = 0
    while i < len(evs):
        e = evs[i]
        if len(e.loops) <= depth:
            if EV.evg(e.pc, env, {}):
                yield e
            i += 1
            continue
        lid = e.loops[depth]
        j = i
        while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth] == lid:
            j += 1
        st, early, n = EV.fold(lid, None, env, {})
        ix = IN.LOOPS[lid].idx
        try:
            for t in range(n + (1 if early else 0)):
                env.dyn[ix] = F(t)
                yield from trace(evs[i:j], env, depth + 1)
        finally:
            env.dyn.pop(ix, None)
        i = j


FILEEV = ("stream", "sout", "sin")


def manipulator(v):
    """Name of the stream manipulator (endl, flush) v is, or None."""
    if v.op == "unit":
        return "endl"
    if v.op == "init" and len(v.a[0]) == 2 and v.a[0][0] == "*" and isinstance(v.a[0][1], Term):
        v = v.a[0][1]
    if v.op == "fnref":
        return str(v.a[1]).split("::")[-1].split("<")[0] or "endl"
    return None


class Files:
    """Contents written through output streams, from a trace of events."""

    def __init__(self, env):
        self.env, self.path, self.text, self.files, self.order = env, {}, {}, {}, []

    def obj(self, a):
        return EV.hk(EV.ev(a, self.env))

    def feed(self, e):
        """True if the event belongs to a stream."""
        if e.kind == "write" and isinstance(e.val, Term) and e.val.op == "stream":
            o = EV.hk(EV.ev(mk("addr", e.root, e.path), self.env))
            self.path[o], self.text[o] = None, ""
            if e.val.a[1] and "string" not in e.val.a[0]:
                self.open(o, e.val.a[1][0])
            return True
        if e.kind == "stream" and e.obj is not None:
            if e.op == "open":
                self.open(self.obj(e.obj), e.args[0])
            elif e.op in ("write", "put") and e.args:
                self.put(e.obj, e.args[0])
            return True
        if e.kind == "sout":
            self.put(e.obj, e.val, getattr(e, "ty", ""))
            return True
        return False

    def open(self, o, path):
        p = EV.text(EV.ev(path, self.env))
        self.path[o] = p
        self.files[p] = ""
        self.order.append(p)

    def put(self, a, val, ty=""):
        o = self.obj(a)
        v = None
        m = manipulator(val)
        if val.op == "sym" and "endl" in str(val.a):
            m = "endl"
        if m and m not in ("endl", "flush"):
            raise EV.Unknown("stream manipulator %s" % m)
        if m:
            v = "\n" if m == "endl" else ""
        else:
            x = EV.ev(val, self.env)
            v = chr(int(x)) if ty in ("char", "const char", "unsigned char", "signed char") and not isinstance(x, tuple) else EV.text(x)
        self.text[o] = self.text.get(o, "") + v
        if self.path.get(o) is not None:
            self.files[self.path[o]] += v

    def sem(self, k):
        """Results of stream operations: everything succeeds."""
        if k[0] == "sres":
            if k[1] == "str":
                return ("str", self.text.get(k[2], ""))
            return k[1] not in ("fail", "bad", "eof", "operator!")
        return None
