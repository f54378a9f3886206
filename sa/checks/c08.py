"""Errors reach Python: exhaustive case analysis of ThrowException and of every binding that obtains a Status."""
from ..core import *

CODES = range(1, 17)
KINDS = {3: "std::invalid_argument", 11: "std::out_of_range"}
# exception classes pybind11 translates together with their message
STD = {"std::exception", "std::runtime_error", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::domain_error",
       "std::length_error", "std::range_error", "std::overflow_error", "std::underflow_error", "std::ios_base::failure", "std::system_error",
       "pybind11::value_error", "pybind11::index_error", "pybind11::key_error", "pybind11::type_error", "pybind11::builtin_exception"}
SAME = {"std::invalid_argument": {"std::invalid_argument", "pybind11::value_error", "std::domain_error", "std::length_error", "std::range_error"},
        "std::out_of_range": {"std::out_of_range", "pybind11::index_error"}}


def outside(f):
    if (f.get("file") or "").startswith("python/"):
        return None
    if (f.get("rt") or "").rstrip().endswith("&") and f.get("const"):
        return None     # accessors are read through
    return "pure" if f.get("const") else "effect"


def is_status(t):
    return "Status" in (t or "") and "util" in (t or "") and "*" not in (t or "")


def check(c):
    c.rules.append("ThrowException: for each error code 1..16 some throw statement must be reached, carrying the status' message, with the documented exception class for "
                   "INVALID_ARGUMENT and OUT_OF_RANGE; code 0 must reach none. Binding functions: whenever a status obtained from the library is not OK, every path ends in a throw")
    for f in c.find("ThrowException", 1):
        where = "src/%s:%s" % (f["file"], f["l"])
        I = c.enter(f)
        st = argval(f, 0)
        code = mk("code", st)
        throws = [e for e in I.events if e.kind == "throw"]
        for k in range(0, 17):
            def m(t):
                return num(k) if t is code else None
            hit = 0
            for e in throws:
                g = bsubst(e.pc, m)
                hit = bor(hit, g)
                if g == 0:
                    continue
                if k:
                    msg = any(x is st or x.op == "msg" for x in subterms(e.val))
                    c.decide(msg, "code %d message" % k, "the exception thrown for error code %d does not carry the message of the status" % k, loc(e))
                    ty = (e.type or "").replace("const ", "")
                    if k in KINDS:
                        c.decide(ty in SAME[KINDS[k]], "code %d kind" % k, "error code %d is thrown as %s instead of %s" % (k, ty, KINDS[k]), loc(e))
                    else:
                        c.decide(ty in STD or derives(c, ty), "code %d class" % k, "error code %d is thrown as %s, which the bindings do not translate with its message" % (k, ty), loc(e))
            if k == 0:
                c.decide(hit == 0, "code 0", "ThrowException throws although the status is OK", where)
            elif hit == 1:
                c.ok("code %d" % k, where)
            else:
                c.viol("code %d" % k, "ThrowException returns without throwing for error code %d%s" % (k, "" if hit == 0 else " unless " + bshow(hit)), where)
    nb = 0
    for f in sorted(c.db["fns"].values(), key=lambda f: f["id"]):
        if not (f.get("file") or "").startswith("python/") or f.get("body") is None or f.get("islambda") or f.get("implicit") or f.get("internal"):
            continue
        if IN.sname(f["name"]).endswith("ThrowException") or "pybind11" in f["name"] or "PyInit" in f["name"] or IN.sname(f["name"]).startswith("Init"):
            continue
        I = c.enter(f, opaque={"!pred": outside})
        nb += 1
        stop = 0
        for e in I.events:
            if e.kind in ("throw", "die"):
                stop = bor(stop, e.pc)
        for e in I.events:
            if e.kind != "call" or e.mode not in ("effect", "pure", "virtual"):
                continue
            if not is_status(TYPE.get(e.ret)):
                continue
            g = band(e.pc, bnot(eq_int(L.code(e.ret), 0)))
            if e.loops:
                idx = [IN.LOOPS[l].idx for l in e.loops]
                c.undecided("status in loop", loc(e), e.fn)
                continue
            # a throw that happens before the call has a disjoint guard
            c.implies(g, stop, "%s:%s" % (IN.sname(f["name"]), e.fn), "%s reports a failure and %s goes on without raising an exception" % (e.fn, IN.sname(f["name"])), where=loc(e))
    c.counts["binding_functions"] = nb


def derives(c, ty):
    r = c.db["recs"].get(ty)
    return bool(r) and any((b.get("name") if isinstance(b, dict) else b) in STD or derives(c, b.get("name") if isinstance(b, dict) else b) for b in r.get("bases") or [])
