"""Models of the library calls used by the analysed code: containers, smart pointers, functions,
streams, status objects, protocol buffers, random numbers, math."""
import re
from .terms import *
from . import terms as T
from .interp import sname, base_type, split_targs, INTS, FLOATS, LOOPS, Frame

MAPS = {"std::map", "std::unordered_map", "std::multimap"}
SETS = {"std::set", "std::unordered_set"}
SEQS = {"std::vector", "std::list", "std::deque", "std::queue", "std::array", "google::protobuf::RepeatedField",
        "google::protobuf::RepeatedPtrField", "std::stack", "std::initializer_list"}
LOCKS = {"std::lock_guard", "std::unique_lock", "std::scoped_lock"}
STATUS = "google::protobuf::util::status_internal::Status"


def rtype(e):
    return base_type(e.get("t"))


def elemtype(t):
    ta = split_targs(base_type(t).rstrip("&* "))
    return ta[0] if ta else ""


def contelem(e):
    """Element type of the container a method is called on."""
    for t in (e.get("name", "").rsplit("::", 1)[0], e.get("orec") or "", e.get("rec") or "", (e.get("obj") or {}).get("t") or ""):
        x = elemtype(t) if t else ""
        if x:
            return x
    return ""


def strv(I, e):
    """Value of an argument that may be a char array or string."""
    return I.rv(e)


def status(code, msg):
    return mk("status", code, msg)


def code(v):
    return lift(lambda x: x.a[0] if x.op == "status" else mk("code", x), v)


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out += list(x.a)
        elif x.op == "str" and out and out[-1].op == "str":
            out[-1] = mk("str", out[-1].a[0] + x.a[0])
        elif not (x.op == "str" and x.a[0] == ""):
            out.append(x)
    if not out:
        return mk("str", "")
    return out[0] if len(out) == 1 else mk("cat", *out)


def seq_of_range(I, b, e):
    """Container value denoted by the iterator range [b, e)."""
    if b.op == "begin":
        root, path = b.a
        mv = I.read(I.addr(root, path))
        n = sub(e, b)
        if n is size(mv):
            return mv
        return mk("prefix", mv, n)
    if b.op == "mbegin":
        return mk("entries", b.a[2])
    return mk("range", b, e)


def extend(old, more):
    if old.op == "seq0" or old.op == "default":
        return more
    if more.op == "seq0":
        return old
    if more.op == "mapseq" and more.a[0].op == "seq0":
        return mapseq(old, more.a[1], more.a[2])
    return mk("concatseq", old, more)


# ---------------------------------------------------------------- constructors
def construct(I, e):
    r = sname(e.get("rec") or "")
    args = e.get("args") or []
    t = rtype(e) or e.get("rec") or ""
    if r in ("std::vector", "std::list", "std::deque", "std::queue", "std::priority_queue", "std::stack",
             "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField"):
        if r == "std::priority_queue":
            return new_pqueue(I, e, args)
        args = [a for a in args if not _is_alloc(a)]
        if not args:
            return EMPTY
        if e.get("stdlist") or e.get("list") and args[0].get("k") in ("initlist", "list"):
            return I.rv(args[0])
        at = base_type(args[0].get("t"))
        if at in INTS or at in FLOATS:
            n = I.rv(args[0])
            x = I.rv(args[1]) if len(args) > 1 else I.default(elemtype(t) or elemtype(e.get("rec") or ""))
            return mk("fill", n, x)
        if len(args) == 2:
            return seq_of_range(I, I.rv(args[0]), I.rv(args[1]))
        return I.rv(args[0])
    if r in MAPS or r in SETS:
        if e.get("stdlist") and args:
            v = MEMPTY
            x = I.rv(args[0])
            items = []
            while x.op == "push":
                items.append(x.a[1])
                x = x.a[0]
            for i in reversed(items):
                if r in SETS:
                    v = mk("mins", v, i)
                else:
                    v = upd(v, ("{", sel(i, (".", "first"))), sel(i, (".", "second")))
            return v
        args = [a for a in args if not _is_alloc(a)]
        if len(args) >= 2 and base_type(args[0].get("t")) not in INTS:
            b, en = I.rv(args[0]), I.rv(args[1])
            return mk("setof", seq_of_range(I, b, en))
        for a in args:
            I.ev(a)
        return MEMPTY
    if r == "std::basic_string":
        args = [a for a in args if not _is_alloc(a)]
        if not args:
            return mk("str", "")
        vs = [I.rv(a) for a in args]
        if len(vs) == 1:
            return vs[0]
        return mk("ret", "string", tuple(vs))
    if r == "std::pair":
        if len(args) == 2:
            return rec({"first": I.rv(args[0]), "second": I.rv(args[1])})
        if len(args) == 1:
            return I.rv(args[0])
        return I.default(t)
    if r == "std::tuple":
        if not args:
            return I.default(t)
        if len(args) == 1 and sname(base_type(args[0].get("t"))) in ("std::tuple", "std::pair"):
            v = I.rv(args[0])
            return v
        return rec({str(i): I.rv(a) for i, a in enumerate(args)})
    if r in ("std::unique_ptr", "std::shared_ptr"):
        if not args:
            return NULL
        v = I.rv(args[0])
        if e.get("move") or sname(base_type(args[0].get("t"))) in ("std::unique_ptr", "std::shared_ptr"):
            I.moved(args[0], e)
        elif r == "std::unique_ptr" and v.op != "null":
            I.emit("own", ptr=v)
        return v
    if r == "std::function":
        if not args:
            return NULL
        return I.rv(args[0])
    if r in LOCKS:
        m = I.lv(args[0])
        if len(args) > 1:
            return mk("nolock", m)
        return mk("lock", m)
    if r == STATUS:
        if not args:
            return status(ZERO, mk("str", ""))
        c = I.rv(args[0])
        m = I.rv(args[1]) if len(args) > 1 else mk("str", "")
        return status(c, m)
    if r in ("google::protobuf::stringpiece_internal::StringPiece", "fmt::basic_format_string", "fmt::basic_string_view",
             "__gnu_cxx::__normal_iterator", "std::basic_string_view",
             "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator", "std::_Rb_tree_const_iterator",
             "std::_Rb_tree_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::reverse_iterator",
             "std::atomic", "std::reference_wrapper"):
        if not args:
            return mk("undef", r)
        return I.rv(args[0])
    if r == "google::LogMessageFatal":
        for a in args:
            I.ev(a)
        I.emit("die", what="fatal")
        I.die()
        return UNIT
    if r in ("google::LogMessage", "google::LogMessageVoidify"):
        return mk("log")
    if r in ("std::mutex", "std::recursive_mutex", "std::condition_variable", "std::allocator", "std::equal_to", "std::hash",
             "std::less", "std::greater"):
        return mk("obj", r)
    if r in ("std::uniform_int_distribution", "std::uniform_real_distribution", "std::bernoulli_distribution",
             "std::normal_distribution"):
        return mk("dist", r.split("::")[1], tuple(I.rv(a) for a in args))
    if r in ("std::mersenne_twister_engine", "std::random_device", "std::linear_congruential_engine"):
        return mk("rng", tuple(I.rv(a) for a in args))
    if r == "std::thread":
        vs = [I.rv(a) for a in args]
        if not vs:
            return mk("thread")
        I.emit("thread", fn=vs[0], args=tuple(vs[1:]))
        return mk("thread", *vs)
    if r == "std::promise":
        return mk("promise", idxs(I))
    if r in ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_stringstream",
             "std::basic_ostringstream", "std::basic_istringstream"):
        vs = tuple(I.rv(a) for a in args)
        I.emit("stream", op="ctor", cls=r, obj=None, args=vs)
        return mk("stream", r, vs, I.fresh("stream"), tuple(LOOPS[l].idx for l in I.loops))
    if r.startswith("gbdt::") and r[6:] in PROTO:
        vs = [I.rv(a) for a in args]
        if vs and base_type(args[0].get("t")) == r:
            return vs[0]
        return mk("pdefault", r[6:])
    if e.get("rec") in I.db["recs"]:
        rc = I.db["recs"][e["rec"]]
        f = I.db["fns"].get(e.get("fn"))
        if not args:
            return I.default(e["rec"], e["rec"])
        vs = [I.rv(a) for a in args]
        return mk("ctor", e["rec"], tuple(vs))
    if "exception" in r or r in ("std::invalid_argument", "std::runtime_error", "std::logic_error", "std::out_of_range",
                                 "std::ios_base::failure", "std::domain_error", "std::bad_alloc", "std::length_error",
                                 "std::overflow_error", "std::range_error"):
        return mk("exc", r, tuple(I.rv(a) for a in args))
    vs = tuple(I.rv(a) for a in args)
    if r not in ("std::chrono::duration", "std::chrono::time_point", "std::fpos", "std::istreambuf_iterator"):
        I.miss("ctor " + r)
    return mk("ctor", e.get("rec") or "", vs)


def _is_alloc(a):
    while a.get("k") in ("mat", "cast"):
        a = a["e"]
    t = base_type(a.get("t"))
    return t.startswith("std::allocator") or t.startswith("std::hash") or t.startswith("std::equal_to")


# ---------------------------------------------------------------- free functions
MATH = {"exp", "log", "pow", "sqrt", "fabs", "isnan", "isinf", "isfinite", "log1p", "expm1", "floor", "ceil", "round", "log2", "log10", "tanh"}
ITERCLS = ("__normal_iterator", "_Rb_tree_", "_Node_", "_List_", "RepeatedPtrIterator", "RepeatedIterator")


def isitt(t):
    return any(x in (t or "") for x in ITERCLS)


def call(I, e, n):
    args = e.get("args") or []
    b = n.split("::")[-1]
    if b in ("abort", "exit", "_exit", "_Exit", "quick_exit", "terminate") and n in (b, "std::" + b):
        for a in args:
            I.rv(a)
        I.emit("die", what=b)
        I.die()
        return UNIT
    if n in ("exp", "log", "pow", "sqrt", "fabs", "isnan", "isinf") or n.startswith("std::") and b in MATH:
        vs = [I.rv(a) for a in args]
        if I.raw and b not in ("isnan", "isinf", "isfinite"):
            return lift(lambda *x: mk("fn", b, *x), *vs)
        return fn(b, *vs)
    if n in ("std::abs", "abs"):
        v = I.rv(args[0])
        return fn("fabs", v)
    if n in ("std::fmax", "fmax", "std::fmin", "fmin"):
        vs = [I.rv(a) for a in args]
        return (mmax if b == "fmax" else mmin)("f", *vs)
    if n in ("std::max", "std::min"):
        if len(args) == 1 and args[0].get("k") in ("initlist", "list", "ctor"):
            v = I.rv(args[0])
            xs = []
            while v.op == "push":
                xs.append(v.a[1])
                v = v.a[0]
        else:
            xs = [I.rv(a) for a in args[:2]]
        k = "f" if rtype(e) in FLOATS else "i"
        r = (mmax if b == "max" else mmin)(k, *xs)
        return I.tmp(r) if e.get("lv") else r
    if n.startswith("__builtin_nan"):
        return NAN
    if n in ("std::numeric_limits::quiet_NaN", "std::nan", "std::nanf", "nanf", "nan"):
        return NAN
    if n.startswith("std::numeric_limits::"):
        t = rtype(e)
        m = {"unsigned char": (0, 255), "unsigned short": (0, 65535), "unsigned int": (0, 2 ** 32 - 1), "int": (-2 ** 31, 2 ** 31 - 1),
             "unsigned long": (0, 2 ** 64 - 1), "long": (-2 ** 63, 2 ** 63 - 1), "char": (-128, 127), "short": (-32768, 32767)}
        if t in m:
            return num(m[t][0 if b in ("min", "lowest") else 1])
        if t in FLOATS:
            big = mk("sym", "huge_" + t)
            tiny = mk("sym", "tiny_" + t)
            eps = mk("sym", "eps_" + t)
            TYPE[big] = TYPE[tiny] = TYPE[eps] = "unsigned long"
            return {"max": big, "lowest": neg(big), "min": tiny, "infinity": big, "epsilon": eps}.get(b, mk("sym", n + t))
    if n in ("std::move", "std::forward"):
        return I.lv(args[0]) if e.get("lv") else (I.lv(args[0]) if args[0].get("lv") else I.tmp(I.rv(args[0])))
    if n in ("std::make_pair",):
        return rec({"first": I.rv(args[0]), "second": I.rv(args[1])})
    if n == "std::make_tuple":
        return rec({str(i): I.rv(a) for i, a in enumerate(args)})
    if n == "std::tie":
        return mk("tie", *[I.lv(a) for a in args])
    if n in ("std::ref", "std::cref"):
        return mk("refw", I.lv(args[0]))
    if n in ("std::make_unique", "std::make_shared"):
        return make_unique(I, e, args)
    if n == "std::get":
        m = re.search(r"3getILm(\d+)E", e.get("fn") or "")
        k = m.group(1) if m else "?"
        src = args[0]
        f = {"0": "first", "1": "second"}.get(k, k) if sname(base_type(src.get("t"))).startswith("std::pair") else k
        if e.get("lv"):
            return I.field(I.lv(src), (".", f))
        return sel(I.rv(src), (".", f), rtype(e))
    if n == "std::bind":
        return bind(I, args)
    if n == "std::swap":
        a, c = I.lv(args[0]), I.lv(args[1])
        x, y = I.read(a), I.read(c)
        I.write(a, y)
        I.write(c, x)
        return UNIT
    if n == "fmt::format":
        vs = [I.rv(a) for a in args]
        return mk("fmt", *vs)
    if n == "std::to_string":
        return mk("fmt", mk("str", "{}"), I.rv(args[0]))
    if n in ("std::sort", "std::stable_sort"):
        return sort(I, args)
    if n == "std::accumulate":
        return accumulate(I, e, args)
    if n == "std::for_each":
        b0, en, fv = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
        each(I, e, b0, en, lambda p: I.call_closure(fv, [("a", p)]))
        return fv
    if n in ("std::fill", "std::fill_n", "std::iota"):
        return fill(I, e, args, b)
    if n == "std::distance":
        return sub(I.rv(args[1]), I.rv(args[0]))
    if n in ("std::next", "std::prev"):
        k = I.rv(args[1]) if len(args) > 1 else ONE
        x = I.rv(args[0])
        return add(x, k) if b == "next" else sub(x, k)
    if n in ("std::begin", "std::end", "std::cbegin", "std::cend"):
        p = I.lv(args[0])
        cls = sname(base_type(args[0].get("t")))
        return I.begin(p, cls) if "begin" in b else I.end(p, cls)
    if n in ("std::all_of", "std::any_of", "std::none_of"):
        return quant(I, e, args, b)
    if n in ("std::partition", "std::stable_partition"):
        return partition(I, e, args)
    if n in ("std::equal", "std::lexicographical_compare") or n == "std::mismatch" and len(args) > 2:
        vs = tuple(I.rv(a) for a in args)
        I.emit("span", fn=n, args=vs)
        r = mk("ret", n, vs)
        t = rtype(e)
        TYPE.setdefault(r, t)
        return B(atom(r)) if t == "bool" else r
    if n in ("std::find", "std::find_if", "std::find_if_not", "std::count", "std::count_if", "std::lower_bound", "std::upper_bound"):
        r = scan(I, e, args, b)
        if r is not None:
            return r
    if n in ("std::find_if", "std::find", "std::max_element", "std::min_element", "std::mismatch", "std::not1", "std::ptr_fun",
             "std::count_if", "std::count", "std::lower_bound", "std::upper_bound"):
        vs = [I.rv(a) for a in args]
        vs = [seqval(I, v) for v in vs]
        r = mk("ret", n, tuple(vs))
        t = rtype(e)
        TYPE.setdefault(r, t)
        if isiter(t):
            ITER.add(r)
        return r
    if n in ("std::replace", "std::reverse", "std::replace_if"):
        b0, en = I.rv(args[0]), I.rv(args[1])
        rest = tuple(I.rv(a) for a in args[2:])
        if b0.op == "begin":
            a = I.addr(*b0.a)
            old = I.read(a)
            whole = sub(en, b0) is size(old)
            I.write(a, mk("reversed", old) if b == "reverse" and whole else mk("ret", n, (old, sub(en, b0)) + rest))
        return UNIT
    if b in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(args) == 2:
        return compare(I, e, b[8:], args)
    if b == "operator-" and len(args) == 2:
        x, y = I.rv(args[0]), I.rv(args[1])
        if "chrono" in n:
            return mk("ret", n, (x, y))
        return sub(x, y)
    if b == "operator+" and len(args) == 2:
        x, y = I.rv(args[0]), I.rv(args[1])
        if isitt(args[0].get("t")) or isitt(args[1].get("t")):
            return add(x, y)
        if "basic_string" in rtype(e):
            return cat(x, y)
        return mk("ret", n, (x, y))
    if b in ("operator<<", "operator>>"):
        p = I.lv(args[0])
        if p.op == "addr" and p.a[0] == ("log",):
            I.ev(args[1])
            return p
        if b == "operator<<":
            v = I.rv(args[1])
            I.emit("sout", obj=p, val=v, ty=base_type(args[1].get("t")))
        else:
            a = I.lv(args[1])
            I.write(a, mk("sin", p, I.fresh("sin"), idxs(I)))
            I.emit("sin", obj=p, to=a)
        return p
    if n == "std::getline":
        p, a = I.lv(args[0]), I.lv(args[1])
        I.emit("stream", op="getline", obj=p, args=(a,), cls="")
        I.write(a, mk("line", I.fresh("line"), idxs(I)))
        return p
    if n == "std::endl":
        return UNIT
    if n in ("google::ParseCommandLineFlags", "google::InitGoogleLogging", "google::SetUsageMessage"):
        for a in args:
            I.ev(a)
        return UNIT
    if n in ("strtof", "strtod", "std::stof", "std::stod", "strtol"):
        s = I.rv(args[0])
        r = mk("fn", "strtof", s)
        TYPE.setdefault(r, "float")
        if len(args) > 1:
            p = I.rv(args[1])
            if p.op != "null":
                x = mk("fn", "strtofend", s)
                I.write(p, x)
        return r
    if f_of(I, e) is not None and I.db["fns"][e["fn"]].get("implicit") and "operator=" in n:
        pass
    vs = []
    pts = e.get("pt") or []
    for i, a in enumerate(args):
        vs.append(I.rv(a) if not a.get("lv") or base_type(a.get("t")) in INTS | FLOATS or "basic_string" in (a.get("t") or "")
                  or (i < len(pts) and pts[i].startswith("const ")) else I.lv(a))
    known = n in ("strlen", "strncmp", "strcmp", "memcmp", "std::memcmp", "std::strncmp", "std::strlen", "strrchr", "time", "localtime", "strftime", "mkdir", "isspace", "std::isspace") or "chrono" in n
    if not known and not n.startswith("Py") and "pybind11" not in n:
        I.miss("call " + n)
    k = () if n in ("strlen", "strncmp", "strcmp", "memcmp", "std::memcmp", "std::strncmp", "std::strlen", "isspace", "std::isspace") else (I.fresh("call:" + n), idxs(I))
    r = mk("ret", n, tuple(vs)) if not k else mk("ret", n, tuple(vs), *k)
    I.emit("call", fn=n, this=None, args=tuple(vs), ret=r, mode="lib", rawargs=tuple(vs))
    for i, a in enumerate(args):
        t = pts[i] if i < len(pts) else ""
        if (t.endswith("*") or t.endswith("&")) and not t.startswith("const ") and vs[i].op in ("addr",) and not t.endswith("&&"):
            I.write(vs[i], mk("out", n, I.fresh("out"), i, idxs(I), I.qread(vs[i])), "call")
        elif not known and isitt(t) or not known and vs[i].op in ("begin", "poly") and not t.startswith("const "):
            for _, x in leaflist(vs[i]):
                if x.op in ("begin", "poly") or x in ITER:
                    root, path = I.locs(x)
                    if path:
                        I.write(I.addr(root, path[:-1]), mk("opaque", n, I.fresh("out"), i, idxs(I)), "call")
    if e.get("noret"):
        I.die()
    TYPE.setdefault(r, rtype(e))
    return r if rtype(e) != "bool" else B(atom(r))


def leaflist(t):
    if t.op == "ite":
        return leaflist(t.a[1]) + leaflist(t.a[2])
    return [(1, t)]


def f_of(I, e):
    return I.db["fns"].get(e.get("fn"))


def idxs(I):
    return tuple(LOOPS[l].idx for l in I.loops)


def seqval(I, v):
    if v.op == "begin":
        return mk("beginof", I.read(I.addr(*v.a)))
    return v


def bind(I, args):
    f = I.rv(args[0])
    out = []
    for a in args[1:]:
        x = a
        while x.get("k") in ("mat", "cast"):
            x = x["e"]
        if x.get("k") == "var" and "placeholders" in (x.get("qn") or x.get("id") or ""):
            m = re.search(r"_(\d+)", (x.get("qn") or x.get("name") or ""))
            out.append(("val", mk("ph", int(m.group(1)))))
            continue
        v = I.rv(a)
        if v.op == "refw":
            out.append(("ref", v.a[0]))
        else:
            out.append(("val", v))
    return mk("bind", f, tuple(out))


def make_unique(I, e, args):
    t = elemtype(rtype(e))
    root = ("heap", "%s:%s" % I.cursite, I.fresh("heap"), idxs(I))
    a = I.addr(root)
    I.roottype[root] = t
    cands = [f for f in I.db["fns"].values() if f.get("rec") == t and f.get("ctor") and f.get("body") is not None
             and len(f.get("params") or []) == len(args) and not f.get("implicit")]
    if cands:
        f = cands[0]
        vals = I.bind_args(f, args)
        I.st.mem[root] = mk("default", t)
        I.call_fn(f, a, vals, exact=t)
    elif t.startswith("std::vector") and args:
        n = I.rv(args[0])
        I.st.mem[root] = n if "vector" in (args[0].get("t") or "") else mk("fill", n, I.rv(args[1]) if len(args) > 1 else I.default(elemtype(t)))
    else:
        I.st.mem[root] = I.default(t, t) if not args else I.rv(args[0]) if len(args) == 1 else mk("ctor", t, tuple(I.rv(x) for x in args))
    I.emit("new", ptr=a, type=t)
    I.emit("own", ptr=a)
    return a


def call_values(I, fv, vals):
    return I.call_closure(fv, [("v", v) for v in vals])


def new_pqueue(I, e, args):
    """A priority queue: its ordering is recorded as a guard over two symbolic elements x, y."""
    ta = split_targs(rtype(e)) or split_targs(e.get("name", "").rsplit("::", 1)[0])
    ety = ta[0] if ta else ""
    fv = None
    vals = [I.rv(a) for a in args]
    for v in vals:
        if v.op in ("closure", "fnref", "bind"):
            fv = v
    less = None
    try:
        if fv is None and len(ta) > 2 and not ta[2].startswith(("std::less", "std::greater")):
            f = next((f for f in I.db["fns"].values() if f.get("rec") == ta[2] and f["name"].endswith("operator()") and f.get("body") is not None), None)
            if f is not None:
                x, y = mk("sym", "x"), mk("sym", "y")
                TYPE[x] = TYPE[y] = base_type(ety)
                pre = I.st
                I.quiet += 1
                I.st = pre.fork()
                try:
                    tmp = I.tmp(I.default(ta[2], ta[2]))
                    less = tobool(I.call_fn(f, tmp, [I.tmp(v) if p.get("ref") else v for p, v in zip(f["params"], (x, y))]))
                finally:
                    I.st = pre
                    I.quiet -= 1
        elif fv is None and len(ta) > 2 and ta[2].startswith("std::greater"):
            g = cmp_summary(I, None, ety)
            less = tobool(subst(B(g), {mk("sym", "x"): mk("sym", "y"), mk("sym", "y"): mk("sym", "x")}.get))
        else:
            less = cmp_summary(I, fv, ety)
            if fv is None:
                f = next((f for f in I.db["fns"].values() if f["name"].split("::")[-1] == "operator<" and f.get("body") is not None and
                          (f.get("rec") == ety or any(ety and ety in p["t"] for p in f.get("params") or []))), None)
                if f is not None:
                    x, y = mk("sym", "x"), mk("sym", "y")
                    pre = I.st
                    I.quiet += 1
                    I.st = pre.fork()
                    try:
                        vs = [I.tmp(v) if p.get("ref") else v for p, v in zip(f["params"], (y,) if f.get("rec") else (x, y))]
                        less = tobool(I.call_fn(f, I.tmp(x) if f.get("rec") else None, vs))
                    finally:
                        I.st = pre
                        I.quiet -= 1
    except RecursionError:
        raise
    except Exception as x:
        I.miss("ordering of a priority queue")
    I.emit("qnew", less=less, type=rtype(e))
    return EMPTY


def cmp_summary(I, fv, ety):
    """less(x, y) of comparator fv as a guard over two symbolic elements (None = operator<)."""
    x, y = mk("sym", "x"), mk("sym", "y")
    for s in (x, y):
        TYPE[s] = base_type(ety)
    if fv is None:
        return flt(x, y) if base_type(ety) in FLOATS else ilt(x, y) if base_type(ety) in INTS else atom(mk("lt", x, y))
    pre = I.st
    I.quiet += 1
    I.st = pre.fork()
    try:
        g = tobool(I.call_closure(fv, [("v", x), ("v", y)]))
    finally:
        I.st = pre
        I.quiet -= 1
    return g


def elem_ty_of_iter(t):
    m = re.search(r"__normal_iterator<(const )?(.*?) ?\*", t or "")
    if m:
        return m.group(2).replace("const ", "")
    return (t or "").rstrip("*& ").replace("const ", "")


def sort(I, args):
    b, e = I.rv(args[0]), I.rv(args[1])
    fv = I.rv(args[2]) if len(args) > 2 else None
    ety = elem_ty_of_iter(args[0].get("t"))
    g = cmp_summary(I, fv, ety)
    base = b
    if b.op == "poly":
        base = next((m[0][0] for m, k in b.a[0] if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "begin"), b)
    if base.op == "begin":
        a = I.addr(*base.a)
        old = I.read(a)
        lo, hi = sub(b, base), sub(e, base)
        whole = lo == ZERO and hi is size(old)
        v = mk("sorted", old, B(g)) if whole else mk("psorted", old, lo, hi, B(g))
        I.emit("sort", addr=a, less=g, old=old, whole=whole, fv=fv)
        I.write(a, v, "sort")
    else:
        I.emit("sort", addr=b, less=g, old=None, whole=False, fv=fv)
    return UNIT


def each(I, e, b, en, f):
    """Loop over an iterator range, f(address of element)."""
    root = ("v", "@each%d" % I.fresh("it"), I.frames[-1].no)
    a = I.addr(root)
    I.st.mem[root] = b
    if b in ITER or b.op in ("begin",):
        pass

    def cond():
        return bnot(I.iteq(I.qread(a), en))

    def inc():
        I.st.mem[root] = add(I.qread(a), ONE)
    I.loop(cond, lambda: f(I.itderef(I.qread(a))), inc, e)


def accumulate(I, e, args):
    b, en, init = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    fv = I.rv(args[3]) if len(args) > 3 else None
    root = ("v", "@acc%d" % I.fresh("it"), I.frames[-1].no)
    acc = I.addr(root)
    I.st.mem[root] = init
    t = rtype(e)
    op = None
    if t not in INTS and t not in FLOATS and fv is None:
        for f in I.db["fns"].values():
            if sname(f["name"]).endswith("operator+") and f.get("body") is not None and len(f.get("params") or []) == 2 and \
                    all(base_type(p["t"]).rstrip("& ") .replace("const ", "") == t for p in f["params"]):
                op = f
            elif sname(f["name"]).endswith("::operator+") and f.get("rec") == t and f.get("body") is not None and len(f.get("params") or []) == 1:
                op = f

    def body(p):
        cur = I.qread(acc)
        if fv is not None:
            v = I.call_closure(fv, [("v", cur), ("a", p)])
        elif op is not None:
            if op.get("rec"):
                v = I.call_fn(op, acc, [p if op["params"][0].get("ref") else I.read(p)])
            else:
                v = I.call_fn(op, None, [acc if op["params"][0].get("ref") else cur, p if op["params"][1].get("ref") else I.read(p)])
        else:
            v = add(cur, I.read(p, t))
        I.rawwrite(root, (), v)
    each(I, e, b, en, body)
    return I.qread(acc)


def fill(I, e, args, b):
    if b == "fill":
        p, en, x = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
        each(I, e, p, en, lambda q: I.write(q, x))
        return UNIT
    if b == "iota":
        p, en, x = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
        each(I, e, p, en, lambda q: I.write(q, add(x, LOOPS[I.loops[-1]].idx)))
        return UNIT
    p, n, x = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    each(I, e, p, add(p, n), lambda q: I.write(q, x))
    return UNIT


def partition(I, e, args):
    """Elements satisfying the predicate first (in the order a swapping pass leaves them in)."""
    p, en, fv = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    root = ("v", "@part%d" % I.fresh("it"), I.frames[-1].no)
    k = I.addr(root)
    I.st.mem[root] = ZERO

    def body(q):
        g = tobool(I.call_closure(fv, [("a", q)]))
        kv = I.qread(k)
        d = I.itderef(add(p, kv))
        x, y = I.read(q), I.read(d)
        I.write(q, ite(g, y, x), "partition")
        I.write(d, ite(g, x, I.qread(d)), "partition")
        I.rawwrite(root, (), ite(g, add(kv, ONE), kv))
    each(I, e, p, en, body)
    r = add(p, I.qread(k))
    ITER.add(r)
    return r


def scan(I, e, args, b):
    """find, count and binary searches (of sorted ranges) as loops over the range."""
    p, en, xv = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    if not (p in ITER or p.op == "begin") or "reverse_iterator" in (args[0].get("t") or ""):
        return None
    fv = xv if b.endswith("_if") or b.endswith("_not") else None
    if fv is not None and fv.op not in ("closure", "fnref", "bind"):
        return None
    cmpv = I.rv(args[3]) if len(args) > 3 else None
    ety = elem_ty_of_iter(args[0].get("t"))
    root = ("v", "@scan%d" % I.fresh("it"), I.frames[-1].no)
    a = I.addr(root)
    I.st.mem[root] = p

    def test(q):
        if fv is not None:
            g = tobool(I.call_closure(fv, [("a", q)]))
            return bnot(g) if b == "find_if_not" else g
        v = I.read(q)
        if b in ("find", "count"):
            return I.equal(v, xv, ety) if ety in FLOATS or ety in INTS else streq(v, xv) if isstr(ety) else I.ptr_eq(v, xv) if "*" in ety else releq(v, xv)
        x, y = (v, xv) if b == "lower_bound" else (xv, v)
        g = tobool(I.call_closure(cmpv, [("v", x), ("v", y)])) if cmpv is not None else flt(x, y) if ety in FLOATS else ilt(x, y) if ety in INTS else atom(mk("lt", x, y))
        return bnot(g) if b == "lower_bound" else g

    def inc():
        I.st.mem[root] = add(I.qread(a), ONE)
    if b.startswith("count"):
        cr = ("v", "@count%d" % I.fresh("it"), I.frames[-1].no)
        ca = I.addr(cr)
        I.st.mem[cr] = ZERO
        each(I, e, p, en, lambda q: I.rawwrite(cr, (), ite(test(q), add(I.qread(ca), ONE), I.qread(ca))))
        return I.qread(ca)

    def cond():
        g = bnot(I.iteq(I.qread(a), en))
        pre = I.st
        I.st = pre.fork(g)
        h = test(I.itderef(I.qread(a))) if I.st.pc else 0
        I.st = I.merge(I.st, pre.fork(bnot(g)), g) if I.st.pc else pre.fork(bnot(g))
        if I.st.pc == pre.pc:
            I.st.locks = pre.locks
        return band(g, bnot(h))
    I.loop(cond, lambda: None, inc, e)
    r = I.qread(a)
    ITER.add(r)
    return r


def quant(I, e, args, b):
    p, en, fv = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    root = ("v", "@q%d" % I.fresh("it"), I.frames[-1].no)
    acc = I.addr(root)
    I.st.mem[root] = FALSE

    def body(q):
        g = tobool(I.call_closure(fv, [("a", q)]))
        if b == "all_of":
            g = bnot(g)
        I.rawwrite(root, (), B(bor(tobool(I.qread(acc)), g)))
    each(I, e, p, en, body)
    r = tobool(I.qread(acc))
    return B(r if b == "any_of" else bnot(r))


def isstr(t):
    return "basic_string" in (t or "") or "char" in (t or "") and ("*" in t or "[" in t)


def streq(x, y):
    for p, q in ((x, y), (y, x)):
        if q.op == "str" and q.a[0] == "":
            return lift(lambda z: B(ieq(size(z), ZERO)), p).a[0] if p.op != "ite" else tobool(lift(lambda z: B(ieq(size(z), ZERO)), p))
    return keyeq(x, y)


def compare(I, e, op, args):
    a, b = args
    t1, t2 = a.get("t"), b.get("t")
    x, y = I.rv(a), I.rv(b)
    if op in ("==", "!="):
        if isitt(t1) or isitt(t2) or "iterator" in (t1 or "") or x.op in ("begin", "find", "mbegin"):
            g = I.iteq(x, y)
        elif isstr(t1) or isstr(t2):
            g = streq(x, y)
        elif "unique_ptr" in (t1 or "") or "unique_ptr" in (t2 or "") or "nullptr" in (t1 or "") + (t2 or "") or "std::function" in (t1 or ""):
            g = I.ptr_eq(x, y)
        else:
            g = releq(x, y)
        return B(g if op == "==" else bnot(g))
    if op[0] == ">":
        x, y = y, x
    if isitt(t1):
        g = ilt(x, y) if len(op) == 1 else ile(x, y)
    elif len(op) == 1:
        g = relless(x, y)
    else:
        g = bnot(relless(y, x))
    return B(g)


def releq(x, y):
    if x.op == "rec" and y.op == "rec" and len(x.a[0]) == len(y.a[0]):
        return band(*[releq(p[1], q[1]) for p, q in zip(x.a[0], y.a[0])])
    if x is y:
        return 1
    if isbool(x) and isbool(y):
        return bnot(bite(x.a[0], bnot(y.a[0]), y.a[0]))
    return keyeq(x, y)


def relless(x, y):
    if x.op == "rec" and y.op == "rec" and len(x.a[0]) == len(y.a[0]) and len(x.a[0]) >= 1:
        r = 0
        for (f, p), (_, q) in reversed(list(zip(x.a[0], y.a[0]))):
            lt = scalarless(p, q)
            gt = scalarless(q, p)
            r = bor(lt, band(bnot(gt), r))
        return r
    return scalarless(x, y)


def scalarless(x, y):
    t = TYPE.get(x) or TYPE.get(y)
    if t in FLOATS:
        return flt(x, y)
    if t in INTS or x.op in ("poly", "num"):
        return ilt(x, y)
    return atom(mk("lt", x, y))


def call_ref(I, c, args):
    vals = tuple(I.arg_val(a) for a in args)
    n = sname(c.a[1] if len(c.a) > 1 else c.a[0])
    b = n.split("::")[-1]
    if b in MATH:
        return fn(b, *vals)
    r = mk("ret", n, vals)
    I.emit("call", fn=n, this=None, args=vals, ret=r, mode="lib", rawargs=vals)
    return r


# ---------------------------------------------------------------- member functions
def header(I, p, what="hdr"):
    """Reading the structure (size, storage) of a container."""
    if I.trace_mem and not I.quiet:
        def g(q):
            if q.op != "null":
                root, path = I.locs(q)
                I.emit("read", root=root, path=path + (("#", what),), val=None)
            return UNIT
        I._guarded(g, p)


def mcall(I, e, n):
    cls, _, m = n.rpartition("::")
    args = e.get("args") or []
    obj = e["obj"]
    if cls == "std::__shared_ptr" or cls == "std::__shared_ptr_access":
        cls = "std::unique_ptr"
    if cls in ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator", "std::_List_iterator",
               "std::_List_const_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator",
               "google::protobuf::internal::RepeatedPtrIterator", "google::protobuf::internal::RepeatedIterator",
               "std::reverse_iterator", "std::__detail::_Node_iterator_base"):
        return iterator(I, e, m, args, cls)
    if cls.startswith("gbdt::") and cls[6:] in PROTO:
        return proto(I, e, cls[6:], m, args)
    if m == "operator=" and cls not in ("std::unique_ptr", "std::tuple", "std::pair"):
        a = I.obj_addr(e)
        v = I.rv(args[0])
        I.write(a, v)
        if cls == "std::function" or cls == STATUS:
            pass
        return a
    if cls in ("std::tuple", "std::pair") and m == "operator=":
        v = I.rv(args[0])
        x = I.rv(obj) if not obj.get("lv") else None
        if x is not None and x.op == "tie":
            for i, p in enumerate(x.a):
                I.write(p, sel(v, (".", str(i))))
            return I.tmp(v)
        a = I.obj_addr(e)
        I.write(a, v)
        return a
    h = {"std::vector": seq, "std::list": seq, "std::deque": seq, "std::queue": seq, "std::priority_queue": pqueue, "std::stack": seq,
         "std::array": seq, "google::protobuf::RepeatedField": seq, "google::protobuf::RepeatedPtrField": seq,
         "std::map": assoc, "std::unordered_map": assoc, "std::set": assoc, "std::unordered_set": assoc,
         "std::unique_ptr": uptr, "std::function": func, "std::basic_string": string, "std::vector_bool": seq,
         "std::initializer_list": seq, "std::__cxx11::basic_string": string, "std::__cxx11::list": seq}.get(cls)
    if h is not None:
        r = h(I, e, cls, m, args)
        if r is not None:
            return r
    if cls == STATUS:
        v = I.rv(obj) if not e.get("arrow") else I.read(I.rv(obj))
        if m == "ok":
            return B(ieq(code(v), ZERO))
        if m in ("error_code", "code"):
            c = code(v)
            for x in ([c] if c.op == "code" else []):
                TYPE.setdefault(x, "unsigned int")
            return c
        if m in ("error_message", "message", "ToString"):
            x = lift(lambda z: z.a[1] if z.op == "status" and m != "ToString" else mk("msg", z), v)
            return I.tmp(x) if e.get("lv") else x
    if cls.startswith("google::LogMessage"):
        if m == "stream":
            if not e["obj"].get("k") == "this":
                I.ev(obj)
            return mk("addr", ("log",), ())
        for a in args:
            I.ev(a)
        return UNIT
    if m == "operator<<" and cls.startswith("std::basic_ostream"):
        p = I.lv(obj)
        if p.op == "addr" and p.a[0] == ("log",):
            for a in args:
                I.ev(a)
            return p
        v = I.rv(args[0])
        I.emit("sout", obj=p, val=v, ty=base_type(args[0].get("t")))
        return p
    if cls.startswith("std::basic_") and ("stream" in cls or cls == "std::basic_ios"):
        p = I.obj_addr(e)
        vs = tuple(I.rv(a) for a in args)
        r = mk("sres", m, p, I.fresh("sres"), idxs(I))
        I.emit("stream", op=m, cls=cls, obj=p, args=vs, res=r)
        TYPE.setdefault(r, rtype(e))
        if rtype(e) == "bool":
            return B(atom(r))
        return I.tmp(r) if e.get("lv") else r
    if cls in ("std::uniform_int_distribution", "std::uniform_real_distribution", "std::mersenne_twister_engine", "std::bernoulli_distribution"):
        if m == "operator()":
            d = I.rv(obj)
            g = I.lv(args[0]) if args else I.lv(obj)
            return draw(I, d, g, rtype(e))
        if m == "seed":
            a = I.obj_addr(e)
            I.write(a, mk("rng", tuple(I.rv(x) for x in args)), "seed")
            I.emit("seed", gen=a)
            return UNIT
    if cls in LOCKS or cls in ("std::mutex", "std::recursive_mutex"):
        a = I.obj_addr(e)
        if cls in LOCKS:
            v = I.qread(a)
            mtx = v.a[0] if v.op in ("lock", "nolock") else a
            root = I.locs(a)[0]
        else:
            mtx, root = a, ("mutex", a)
        if m == "unlock":
            I.st.locks = tuple(l for l in I.st.locks if l[0] != root)
        elif m == "lock":
            I.st.locks = I.st.locks + ((root, mtx),)
            I.acquired(mtx)
        return UNIT
    if cls == "std::condition_variable":
        a = I.obj_addr(e)
        if m == "wait":
            f = I.rv(args[1]) if len(args) > 1 else None
            g = 1
            if f is not None:
                g = tobool(I.call_closure(f, []))
            I.emit("wait", cv=a, pred=g, haspred=f is not None)
            for x in args[:1]:
                I.lv(x)
        else:
            I.emit("notify", cv=a, op=m)
        return UNIT
    if cls == "std::promise" and m in ("set_value", "get_future"):
        a = I.obj_addr(e)
        vs = tuple(I.rv(x) for x in args)
        I.emit("thr", cls=cls, op=m, obj=a, args=vs)
        if m == "get_future":
            return mk("future", a)
        fld = (".", "!value")
        I.write(lift(lambda q: q if q.op == "null" else I.addr(I.locs(q)[0], I.locs(q)[1] + (fld,)), a), vs[0] if vs else UNIT)
        return UNIT
    if cls in ("std::future", "std::__basic_future") and m in ("get", "wait"):
        v = I.rv(obj)
        a = I.obj_addr(e)
        I.emit("thr", cls="std::future", op=m, obj=v, args=())

        def got(x):
            if x.op == "future":
                return lift(lambda q: I.read(I.addr(I.locs(q)[0], I.locs(q)[1] + ((".", "!value"),))), x.a[0])
            return mk("ret", n, (x,))
        return lift(got, v) if m == "get" else UNIT
    if cls in ("std::thread", "std::promise", "std::future", "std::__basic_future"):
        a = I.obj_addr(e)
        vs = tuple(I.rv(x) for x in args)
        I.emit("thr", cls=cls, op=m, obj=a, args=vs)
        r = mk("ret", n, (I.qread(a),) + vs)
        if rtype(e) == "bool":
            return B(atom(r))
        return r
    if cls.startswith("std::chrono") or cls in ("std::fpos",):
        vs = tuple(I.rv(x) for x in args)
        return mk("ret", n, (I.rv(obj),) + vs)
    if m.startswith("operator") and f_of(I, e) is not None and False:
        return UNIT
    # unknown
    if "pybind11" not in cls:
        I.miss("mcall " + n)
    a = I.obj_addr(e)
    vs = tuple(I.rv(x) for x in args)
    r = mk("ret", n, (I.qread(a),) + vs, I.fresh("call:" + n), idxs(I))
    I.emit("call", fn=n, this=a, args=vs, ret=r, mode="lib", rawargs=vs)
    if not e.get("const") and m not in ("DebugString", "GetDescriptor", "full_name", "SerializeAsString", "what", "ToString"):
        I.write(a, mk("out", n, I.fresh("out"), "this", idxs(I), I.qread(a)), "call")
    TYPE.setdefault(r, rtype(e))
    return B(atom(r)) if rtype(e) == "bool" else I.tmp(r) if e.get("lv") else r


def draw(I, d, g, t):
    k = I.fresh("draw")
    r = mk("draw", d, k, idxs(I))
    TYPE.setdefault(r, t)
    I.emit("draw", dist=d, gen=g, val=r)
    if I.trace_mem:
        def f(q):
            if q.op != "null":
                root, path = I.locs(q)
                I.emit("write", root=root, path=path, val=r, how="draw")
            return UNIT
        I._guarded(f, g)
    return r


def iterator(I, e, m, args, cls):
    obj = e["obj"]
    if m == "operator*":
        it = I.rv(obj)
        p = I.itderef(it)
        return p if e.get("lv") else I.read(p, e.get("t"))
    if m == "operator->":
        return I.itderef(I.rv(obj))
    if m in ("operator++", "operator--"):
        a = I.lv(obj)
        v = I.read(a, obj.get("t"))
        nv = add(v, ONE if m == "operator++" else num(-1))
        I.write(a, nv)
        if args:
            return v                      # postfix: old value (prvalue)
        return a
    if m in ("operator+=", "operator-="):
        a = I.lv(obj)
        k = I.rv(args[0])
        I.write(a, add(I.read(a, obj.get("t")), k if m == "operator+=" else neg(k)))
        return a
    if m in ("operator+", "operator-"):
        v = I.rv(obj)
        k = I.rv(args[0])
        if cls == "std::reverse_iterator":
            pass
        return add(v, k) if m == "operator+" else sub(v, k)
    if m == "operator[]":
        return I.ptr_add(I.itderef(I.rv(obj)), I.rv(args[0]))
    if m == "operator=":
        a = I.lv(obj)
        I.write(a, I.rv(args[0]))
        return a
    if m == "base":
        v = I.rv(obj)
        if v.op == "mrbegin":
            return mk("mend", v.a[0], v.a[1], v.a[2])
        r = mk("ret", "base", (v,))
        ITER.add(r)
        return r
    if m in ("operator==", "operator!="):
        g = I.iteq(I.rv(obj), I.rv(args[0]))
        return B(g if m == "operator==" else bnot(g))
    I.miss("iterator " + m)
    return mk("opaque", m, I.fresh("opq"))


def seq(I, e, cls, m, args):
    a = I.obj_addr(e)
    if m in ("size", "length"):
        header(I, a)
        return size(I.qread(a))
    if m == "empty":
        header(I, a)
        return B(lift(lambda v: B(ieq(size(v), ZERO)), I.qread(a)).a[0]) if True else None
    if m in ("operator[]", "at", "Get", "Mutable"):
        i = I.rv(args[0])
        header(I, a)
        I.emit("index", addr=a, i=i, val=I.qread(a), op=m)
        return I.field(a, ("[", i))
    if m in ("front",):
        I.emit("index", addr=a, i=ZERO, val=I.qread(a), op=m, size=size(I.qread(a)))
        return I.field(a, ("[", ZERO))
    if m in ("back",):
        n = size(I.qread(a))
        I.emit("index", addr=a, i=sub(n, ONE), val=I.qread(a), op=m, size=n)
        return I.field(a, ("[", sub(n, ONE)))
    if m == "data":
        return I.begin(a, "std::vector")
    if m in ("begin", "cbegin"):
        header(I, a)
        return I.begin(a, cls)
    if m in ("end", "cend"):
        header(I, a)
        return add(I.begin(a, cls), size(I.qread(a)))
    if m in ("push_back", "push", "emplace_back", "emplace", "Add"):
        if m == "Add" and not args:
            n = size(I.qread(a))
            I.write(a, push(I.read(a), I.default(contelem(e))), "push")
            return I.field(a, ("[", n))
        et = contelem(e)
        if len(args) == 1:
            v = I.rv(args[0])
            if v.op == "thread":
                pass
            elif et == "std::thread" and v.op != "thread":
                I.emit("thread", fn=v, args=())
                v = mk("thread", v)
        elif not args:
            v = I.default(et, et)
        elif sname(et) == "std::pair":
            v = rec({"first": I.rv(args[0]), "second": I.rv(args[1])})
        elif sname(et) == "std::tuple":
            v = rec({str(i): I.rv(x) for i, x in enumerate(args)})
        elif et == "std::thread":
            vs = [I.rv(x) for x in args]
            I.emit("thread", fn=vs[0], args=tuple(vs[1:]))
            v = mk("thread", *vs)
        else:
            v = emplace(I, et, args)
        I.write(a, push(I.read(a), v), "push")
        if m in ("emplace_back", "emplace") and e.get("lv"):
            return I.field(a, ("[", sub(size(I.qread(a)), ONE)))
        return UNIT
    if m in ("pop_front", "pop") or m == "pop_back":
        old = I.read(a)
        I.emit("pop", addr=a, val=old)
        I.write(a, lift(lambda v: pop(v, m), old), "pop")
        return UNIT
    if m in ("clear", "Clear"):
        I.write(a, EMPTY, "clear")
        return UNIT
    if m in ("reserve", "shrink_to_fit", "Reserve"):
        for x in args:
            I.ev(x)
        header(I, a)
        if I.trace_mem:
            I.write(a, I.qread(a), "realloc")
        return UNIT
    if m == "resize":
        n = I.rv(args[0])
        et = contelem(e)
        x = I.rv(args[1]) if len(args) > 1 else I.default(et, et)
        old = I.read(a)
        I.write(a, lift(lambda v: resized(v, n, x), old), "resize")
        return UNIT
    if m == "assign":
        if len(args) == 2:
            t0 = base_type(args[0].get("t"))
            if t0 in INTS:
                I.write(a, mk("fill", I.rv(args[0]), I.rv(args[1])), "assign")
            else:
                I.write(a, seq_of_range(I, I.rv(args[0]), I.rv(args[1])), "assign")
        else:
            I.write(a, I.rv(args[0]), "assign")
        return UNIT
    if m == "swap":
        b = I.lv(args[0])
        x, y = I.read(a), I.read(b)
        I.write(a, y, "swap")
        I.write(b, x, "swap")
        return UNIT
    if m == "sort":
        fv = I.rv(args[0]) if args else None
        old = I.read(a)
        g = cmp_summary(I, fv, contelem(e))
        I.emit("sort", addr=a, less=g, old=old, whole=True, fv=fv)
        I.write(a, mk("sorted", old, B(g)), "sort")
        return UNIT
    if m == "insert":
        vs = [I.rv(x) for x in args]
        old = I.read(a)
        if len(vs) == 3 and vs[1].op in ("begin", "poly", "mbegin"):
            more = seq_of_range(I, vs[1], vs[2])
            root, path = I.locs(a)
            if vs[0].op in ("begin", "poly") and ieq(sub(vs[0], mk("begin", root, path)), size(old)) == 1:
                I.write(a, extend(old, more), "insert")
                return mk("opaque", "insert", I.fresh("opq"))
        if len(vs) == 2:
            root, path = I.locs(a)
            if ieq(sub(vs[0], mk("begin", root, path)), size(old)) == 1:
                I.write(a, push(old, vs[1]), "insert")
                return UNIT
        I.write(a, mk("inserted", old, *vs), "insert")
        return mk("opaque", "insert", I.fresh("opq"))
    if m == "erase":
        vs = [I.rv(x) for x in args]
        old = I.read(a)
        root, path = I.locs(a)
        bg = mk("begin", root, path)
        if len(vs) == 1 and vs[0] is bg:
            I.write(a, lift(lambda v: pop(v, "pop_front"), old), "erase")
        else:
            I.write(a, mk("erased", old, *[sub(v, bg) for v in vs]), "erase")
        return bg
    if m == "remove":
        I.write(a, mk("removed", I.read(a), I.rv(args[0])), "erase")
        return UNIT
    return None


def emplace(I, et, args):
    cands = [f for f in I.db["fns"].values() if et and f.get("rec") in (et, et.split("<")[0]) and f.get("ctor")]

    def misfit(f):
        return sum(base_type(p["t"]).rstrip("&* ") != base_type(x.get("t")).rstrip("&* ") for p, x in zip(f.get("params") or [], args))
    for f in sorted(cands, key=misfit):
        if f.get("ctor") and f.get("body") is not None and len(f.get("params") or []) == len(args) and not f.get("implicit"):
            root = ("tmp", I.fresh("tmp"))
            I.roottype[root] = et
            vals = I.bind_args(f, args)
            I.st.mem[root] = mk("default", et)
            I.call_fn(f, I.addr(root), vals, exact=et)
            return I.memval(root)
    return mk("ctor", et, tuple(I.rv(x) for x in args))


def pop(v, m):
    if m == "pop_back":
        return v.a[0] if v.op == "push" else mk("popback", v)
    if v.op == "push" and v.a[0].op == "seq0":
        return EMPTY
    return mk("popfront", v)


def resized(v, n, x):
    if v.op in ("seq0",):
        return mk("fill", n, x)
    return mk("resized", v, n, x)


def pqueue(I, e, cls, m, args):
    a = I.obj_addr(e)
    old = I.read(a)
    if m in ("push", "emplace"):
        et = contelem(e)
        if len(args) == 1:
            v = I.rv(args[0])
        elif sname(et) == "std::pair":
            v = rec({"first": I.rv(args[0]), "second": I.rv(args[1])})
        elif sname(et) == "std::tuple":
            v = rec({str(i): I.rv(x) for i, x in enumerate(args)})
        else:
            v = emplace(I, et, args)
        I.emit("qpush", addr=a, val=v, type=e.get("orec") or e.get("rec"))
        I.write(a, mk("qpush", old, v), "qpush")
        return UNIT
    if m == "pop":
        I.emit("qpop", addr=a, val=old)
        I.write(a, mk("qpop", old), "qpop")
        return UNIT
    if m == "top":
        I.emit("qtop", addr=a, val=old)
        t = rtype(e)
        r = mk("qtop", old)
        TYPE.setdefault(r, t)
        return I.tmp(r) if e.get("lv") else r
    if m in ("size", "empty"):
        n = qsize(old)
        return n if m == "size" else B(ieq(n, ZERO))
    return None


def qsize(v):
    if v.op == "qpush":
        return add(qsize(v.a[0]), ONE)
    if v.op == "qpop":
        return sub(qsize(v.a[0]), ONE)
    if v.op == "ite":
        return ite(v.a[0], qsize(v.a[1]), qsize(v.a[2]))
    return size(v)


def assoc(I, e, cls, m, args):
    a = I.obj_addr(e)
    kind = "set" if cls in SETS else "map"

    def each_(f):
        def g(q):
            root, path = I.locs(q)
            return f(root, path, I.qread(q))
        return lift(g, a)
    if m == "size":
        header(I, a)
        return size(I.qread(a))
    if m == "empty":
        header(I, a)
        return B(ieq(size(I.qread(a)), ZERO))
    if m in ("find", "count", "contains"):
        k = I.rv(args[0])
        header(I, a)
        if m != "find":
            g = contains(I.qread(a), k)
            return B(g) if m == "contains" else ite(g, ONE, ZERO)
        return each_(lambda r, p, v: mk("find", r, p, k, v, kind))
    if m in ("lower_bound", "upper_bound"):
        k = I.rv(args[0])
        header(I, a)
        return each_(lambda r, p, v: mk("lowb", r, p, k if m == "lower_bound" else mk("after", k), v, kind))
    if m in ("begin", "cbegin"):
        header(I, a)
        return I.begin(a, cls)
    if m in ("end", "cend"):
        header(I, a)
        return I.end(a, cls)
    if m in ("rbegin", "crbegin"):
        header(I, a)
        return each_(lambda r, p, v: mk("mrbegin", r, p, v, kind))
    if m in ("operator[]", "at"):
        k = I.rv(args[0])
        header(I, a)
        v = I.qread(a)
        g = contains(v, k)
        if m == "at":
            I.emit("index", addr=a, i=k, val=v, op="at")
        elif I.trace_mem and not I.quiet and g != 1:
            sv = I.st
            I.st = sv.fork(bnot(g))

            def gg(q):
                root, path = I.locs(q)
                I.emit("write", root=root, path=path, val=None, how="map[]")
                return UNIT
            if I.st.pc:
                I._guarded(gg, a)
            I.st = sv
        return I.field(a, ("{", k))
    if m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        if kind == "map":
            if len(args) == 2 and "iterator" not in (args[0].get("t") or ""):
                k, v = I.rv(args[0]), I.rv(args[1])
            else:
                x = I.rv(args[-1])
                k, v = sel(x, (".", "first")), sel(x, (".", "second"))
            old = I.qread(a)
            g = contains(old, k)
            if m == "insert_or_assign":
                I.write(a, upd(old, ("{", k), v), "minsert")
            else:
                sv = I.st
                I.st = sv.fork(bnot(g))
                if I.st.pc:
                    I.write(a, upd(old, ("{", k), v), "minsert")
                x = I.st
                I.st = I.merge(x, sv.fork(g), bnot(g))
            it = each_(lambda r, p, _: mk("find", r, p, k, I.qread(a), kind))
            return rec({"first": it, "second": B(bnot(g))})
        if len(args) == 2 and e.get("rt") != "void" and "iterator" not in base_type(args[0].get("t")).lower() and "*" not in (args[0].get("t") or ""):
            k = I.rv(args[1])
        elif len(args) == 2:
            b, en = I.rv(args[0]), I.rv(args[1])
            old = I.read(a)
            I.write(a, mk("munion", old, seq_of_range(I, b, en)), "minsert")
            return UNIT
        else:
            x = args[0]
            k = I.rv(x)
            if "initializer_list" in (x.get("t") or ""):
                old = I.read(a)
                items = []
                while k.op == "push":
                    items.append(k.a[1])
                    k = k.a[0]
                for i in reversed(items):
                    old = mk("mins", old, i)
                I.write(a, old, "minsert")
                return UNIT
        old = I.read(a)
        g = contains(old, k)
        I.write(a, old if g == 1 else mk("mins", old, k), "minsert")
        it = each_(lambda r, p, _: mk("find", r, p, k, I.qread(a), kind))
        return rec({"first": it, "second": B(bnot(g))})
    if m == "erase":
        k = I.rv(args[0])
        it = None
        if k.op == "find":
            k = k.a[2]
        elif k.op in ("mbegin", "mrbegin", "lowb", "poly") or k in MAPIT:
            it = k
            p = I.itderef(k)
            k = I.qread(I.field(p, (".", "first"))) if kind == "map" else I.qread(p)
        old = I.read(a)
        I.write(a, mk("mdel", old, k), "merase")
        if it is not None and it.op != "mrbegin":
            return it           # the position of the next entry
        return mk("opaque", "erase", I.fresh("opq"))
    if m == "clear":
        I.write(a, MEMPTY, "clear")
        return UNIT
    if m == "swap":
        b = I.lv(args[0])
        x, y = I.read(a), I.read(b)
        I.write(a, y, "swap")
        I.write(b, x, "swap")
        return UNIT
    if m in ("reserve", "rehash"):
        I.ev(args[0])
        return UNIT
    return None


def uptr(I, e, cls, m, args):
    if m in ("get", "operator->", "operator*", "operator bool", "release"):
        a = I.lv(e["obj"])
        v = I.read(a, e["obj"].get("t"))
        if m == "operator bool":
            return B(tobool(v))
        if m == "release":
            I.write(a, NULL, "release")
            return v
        if m in ("operator->", "operator*"):
            I.deref_event(v, e)
        return v
    a = I.obj_addr(e)
    if m == "operator[]":
        return I.ptr_add(I.read(a), I.rv(args[0]))
    if m == "reset":
        v = I.rv(args[0]) if args else NULL
        I.emit("delete", ptr=I.qread(a), by=a)
        I.write(a, v, "reset")
        if v.op != "null":
            I.emit("own", ptr=v)
        return UNIT
    if m == "operator=":
        v = I.rv(args[0])
        if args[0].get("t", "").startswith("std::unique_ptr") or "unique_ptr" in (args[0].get("t") or ""):
            I.moved(args[0], e)
        I.emit("delete", ptr=I.qread(a), by=a)
        I.write(a, v, "reset")
        return a
    if m == "swap":
        b = I.lv(args[0])
        x, y = I.read(a), I.read(b)
        I.write(a, y, "swap")
        I.write(b, x, "swap")
        return UNIT
    return None


def func(I, e, cls, m, args):
    if m == "operator()":
        c = I.rv(e["obj"]) if not e.get("arrow") else I.read(I.rv(e["obj"]))
        return I.call_closure(c, [("e", x) for x in args], e)
    if m == "operator bool":
        return B(tobool(I.rv(e["obj"])))
    return None


def string(I, e, cls, m, args):
    a = I.obj_addr(e)
    if m in ("size", "length"):
        header(I, a)
        return size(I.qread(a))
    if m == "empty":
        header(I, a)
        return B(ieq(size(I.qread(a)), ZERO))
    if m in ("c_str", "data"):
        return I.read(a)
    if m in ("operator+=", "append", "push_back"):
        vs = [I.rv(x) for x in args]
        old = I.read(a)
        I.write(a, cat(old, vs[0]) if len(vs) == 1 else mk("ret", "append", (old,) + tuple(vs)), "append")
        return a if m != "push_back" else UNIT
    if m in ("operator[]", "at", "back", "front"):
        i = I.rv(args[0]) if args else (ZERO if m == "front" else sub(size(I.qread(a)), ONE))
        I.emit("index", addr=a, i=i, val=I.qread(a), op=m)
        return I.field(a, ("[", i))
    if m in ("begin", "end", "cbegin", "cend"):
        b = I.begin(a, "std::basic_string")
        return b if "begin" in m else add(b, size(I.qread(a)))
    if m in ("rbegin", "rend"):
        r = mk("r" + m[1:], I.qread(a))
        return r
    if m in ("clear",):
        I.write(a, mk("str", ""), "clear")
        return UNIT
    if m in ("reserve", "shrink_to_fit"):
        for x in args:
            I.ev(x)
        return UNIT
    if m in ("assign",):
        vs = tuple(I.rv(x) for x in args)
        I.write(a, vs[0] if len(vs) == 1 else mk("ret", "assign", vs), "assign")
        return a
    if m in ("erase", "insert", "replace", "resize", "pop_back"):
        vs = tuple(seqval(I, I.rv(x)) for x in args)
        I.write(a, mk("ret", "str." + m, (I.read(a),) + vs), m)
        return a
    if m in ("find", "rfind", "find_last_not_of", "find_first_not_of", "find_first_of", "find_last_of", "compare", "substr",
             "starts_with", "ends_with"):
        vs = tuple(I.rv(x) for x in args)
        if m == "substr" and len(vs) == 1:
            vs = vs + (mk("sym", "npos"),)
        r = mk("ret", "str." + m, (I.read(a),) + vs)
        TYPE.setdefault(r, rtype(e))
        return B(atom(r)) if rtype(e) == "bool" else r
    return None


# ---------------------------------------------------------------- protocol buffers
PBT = {"float": "float", "double": "double", "int32": "int", "int64": "long", "uint32": "unsigned int", "uint64": "unsigned long",
       "bool": "bool", "string": "std::string", "bytes": "std::string"}


def proto(I, e, msg, m, args):
    P = PROTO[msg]
    a = I.obj_addr(e)
    if m in ("operator=", "CopyFrom"):
        x = args[0]
        v = I.rv(x)
        I.write(a, v, "proto")
        return a
    if m == "Clear":
        I.write(a, mk("pdefault", msg), "proto")
        return UNIT
    if m == "Swap":
        b = I.rv(args[0])
        x, y = I.read(a), I.read(b)
        I.write(a, y)
        I.write(b, x)
        return UNIT
    if m == "MergeFrom":
        v = I.rv(args[0])
        I.write(a, mk("merged", I.read(a), v), "proto")
        return UNIT
    if m in P and P[m][0] == "optional":
        p = I.field(a, (".", m))
        if e.get("lv"):
            return p
        return I.read(p, PBT.get(P[m][1], e.get("t")))
    if m in P:
        p = I.field(a, (".", m))
        if args:
            p = I.field(p, ("[", I.rv(args[0])))
        if e.get("lv"):
            return p
        return I.read(p, PBT.get(P[m][1], e.get("t")))
    for pre in ("set_", "mutable_", "has_", "add_", "clear_", "release_", "set_allocated_"):
        f = m[len(pre):]
        if m.startswith(pre) and f in P:
            label, ty = P[f]
            p = I.field(a, (".", f))
            if pre == "set_":
                vs = [I.rv(x) for x in args]
                if len(vs) == 2:
                    I.write(I.field(p, ("[", vs[0])), vs[1])
                else:
                    I.write(p, vs[0])
                return UNIT
            if pre == "has_":
                return B(tobool(I.read(I.field(a, (".", m)), "bool")))
            if pre == "mutable_":
                if args:
                    return I.field(p, ("[", I.rv(args[0])))
                if label == "optional" and ty in PROTO:
                    I.write(I.field(a, (".", "has_" + f)), TRUE, "has")
                return p
            if pre == "clear_":
                if label == "repeated":
                    I.write(p, EMPTY, "clear")
                else:
                    if ty in PROTO:
                        I.write(I.field(a, (".", "has_" + f)), FALSE, "has")
                        I.write(p, mk("pdefault", ty), "clear")
                    else:
                        I.write(p, sel(mk("pdefault", msg), (".", f)), "clear")
                return UNIT
            if pre == "add_":
                old = I.qread(p)
                n = size(old)
                v = I.rv(args[0]) if args else mk("pdefault", ty)
                I.write(p, push(I.read(p), v), "push")
                return I.field(p, ("[", n))
    if m.endswith("_size") and m[:-5] in P:
        return size(I.read(I.field(a, (".", m[:-5]))))
    if m in ("ByteSize", "ByteSizeLong", "DebugString", "ShortDebugString", "SerializeAsString", "GetDescriptor"):
        return mk("ret", m, (I.qread(a),))
    I.miss("proto %s::%s" % (msg, m))
    return mk("opaque", m, I.fresh("opq"))
