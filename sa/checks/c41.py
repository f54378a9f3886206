"""String helpers: the returned formulas interpreted over short strings; reads beyond either string."""
from ..core import *

BASE = 1000         # iterators and pointers into argument k start at BASE*(k+1); reverse iterators at BASE*(k+1)+500


class Outside(Exception):
    pass


def strings():
    out = [""]
    for n in (1, 2, 3):
        out += [a + b for a in out if len(a) == n - 1 for b in "ab"]
    return out


def meaning(args):
    """Interpretation of string leaves for concrete argument strings: sem(env, key)."""
    def unlist(x):
        return list(x) if isinstance(x, (list, tuple)) else x

    def at(p):
        p = int(p)
        for k, s in enumerate(args):
            b = BASE * (k + 1)
            if b - 100 <= p < b + 400:
                if not 0 <= p - b <= len(s):
                    raise Outside("reads character %d of a string of length %d" % (p - b, len(s)))
                return ord(s[p - b]) if p - b < len(s) else 0
            b += 500
            if b - 100 <= p < b + 400:
                if not 0 <= p - b < len(s):
                    raise Outside("reads character %d from the end of a string of length %d" % (p - b, len(s)))
                return ord(s[len(s) - 1 - (p - b)])
        raise EV.Unknown("pointer")

    def which(x):
        """argument index of a string operand key, given as list/tuple of characters tagged with its argument."""
        return None

    def sem(env, k):
        op = k[0]
        if op == "init" and k[1] and k[1][0] == "arg" and k[1][1] < len(args):
            return Str(args[k[1][1]], k[1][1])
        if op in ("begin", "rbegin", "rend"):
            x = k[1]
            if op == "begin":
                if x and x[0] == "arg" and not k[2]:
                    return Fraction(BASE * (x[1] + 1))
                raise EV.Unknown("begin")
            i = getattr(x, "arg", None)
            if i is None:
                raise EV.Unknown(op)
            return Fraction(BASE * (i + 1) + 500 + (len(x) if op == "rend" else 0))
        if op == "addr" and k[1][0] == "*" and isinstance(k[1][1], Str) and k[1][1].arg is not None:
            k = (op, ("arg", k[1][1].arg), k[2])
        if op == "addr" and k[1][0] == "arg":
            p = k[2]
            if not p:
                return Fraction(BASE * (k[1][1] + 1))
            if len(p) == 1 and p[0][0] == "[":
                return Fraction(BASE * (k[1][1] + 1) + int(p[0][1]))
        if op in ("sel", "*"):
            b = k[1]
            if isinstance(b, Str) and len(k) == 4:
                i = int(k[3])
                if not 0 <= i <= len(b):
                    raise Outside("reads character %d of a string of length %d" % (i, len(b)))
                return ord(b[i]) if i < len(b) else 0
            if isinstance(b, (int, Fraction)):
                return at(b)
            raise EV.Unknown("read")
        if op == "init" and k[1] and k[1][0] == "*":
            b = k[1][1]
            return at(ptr(b))
        if op == "ret":
            f, a = k[1].replace("std::", ""), k[2]
            if f in ("mismatch", "equal"):
                b1, e1, b2 = (int(ptr(x)) for x in a[:3])
                e2 = int(ptr(a[3])) if len(a) > 3 and isinstance(a[3], (int, Fraction)) else None
                x, y = b1, b2
                while x < e1 and (e2 is None or y < e2):
                    u, v = at(x), at(y)
                    if end(y):
                        raise Outside("compares with the character after the end of the string")
                    if u != v:
                        break
                    x, y = x + 1, y + 1
                if f == "equal":
                    return x == e1 and (e2 is None or y == e2)
                return {"first": Fraction(x), "second": Fraction(y)}
            if f in ("memcmp", "strncmp"):
                x, y, n = (int(ptr(z)) for z in a[:3])
                for i in range(n):
                    if f == "memcmp" and (past(x + i) or past(y + i)):
                        raise Outside("memcmp reads behind the end of a string")
                    u, v = at(x + i), at(y + i)
                    if u != v:
                        return -1 if u < v else 1
                    if f == "strncmp" and u == 0:
                        break
                return 0
            if f.startswith("str."):
                s = text(a[0])
                m = f[4:]
                v = [text(z) if isinstance(z, Str) else z for z in a[1:]]
                v = [10 ** 9 if isinstance(z, tuple) else z for z in v]
                if m == "substr":
                    p = int(v[0])
                    if not 0 <= p <= len(s):
                        raise Outside("substr at position %d of a string of length %d" % (p, len(s)))
                    n = int(v[1])
                    return Str(s[p:] if n < 0 else s[p:p + n], None)
                if m in ("find", "rfind"):
                    if m == "find":
                        r = s.find(v[0], int(v[1]) if len(v) > 1 else 0)
                    else:
                        p = int(v[1]) if len(v) > 1 else 10 ** 6
                        p = 10 ** 6 if p < 0 else p
                        r = s.rfind(v[0], 0, p + len(v[0]))
                    return Fraction(r) if r >= 0 else Fraction(2 ** 64 - 1)
                if m == "compare":
                    if len(v) == 1:
                        x, y = s, v[0]
                    else:
                        p, n = int(v[0]), int(v[1])
                        if not 0 <= p <= len(s):
                            raise Outside("compare at position %d of a string of length %d" % (p, len(s)))
                        x, y = (s[p:] if n < 0 else s[p:p + n]), v[2]
                        if len(v) == 5:
                            y = y[int(v[3]):][:int(v[4])]
                        if len(v) not in (3, 5) or not isinstance(y, str):
                            raise EV.Unknown("compare")
                    return (x > y) - (x < y)
            raise EV.Unknown(k[1])
        if op in ("keq",):
            return None
        if op == "npos" or op == "sym" and "npos" in k:
            return Fraction(2 ** 64 - 1)
        return None

    def past(p):
        return any(p - BASE * (k + 1) >= len(s) for k, s in enumerate(args) if 0 <= p - BASE * (k + 1) < 400)

    def end(p):
        return past(p)

    def ptr(x):
        if isinstance(x, Str) and x.arg is not None:
            return BASE * (x.arg + 1)
        if isinstance(x, (int, Fraction)):
            return x
        raise EV.Unknown("pointer %r" % (x,))

    def text(x):
        if isinstance(x, Str):
            return "".join(x)
        raise EV.Unknown("string")
    return sem


class Str(tuple):
    """Evaluated string: tuple of characters remembering which argument it is."""
    def __new__(cls, s, arg):
        r = tuple.__new__(cls, tuple(s))
        r.arg = arg
        return r


def check(c):
    c.rules.append("HasPrefix/HasSuffix: the extracted result formula, interpreted over all pairs of strings of up to 3 characters over two letters, must be the prefix/suffix relation and must not "
                   "evaluate a character outside either string; StringCast: result true iff the conversion consumed the whole non-empty text, and the parsed value is what is stored")
    for name, rel in (("strings::HasPrefix", str.startswith), ("strings::HasSuffix", str.endswith)):
        for f in c.find(name, 2):
            where = "src/%s:%s" % (f["file"], f["l"])
            I = c.enter(f)
            truth_table(c, I, name, rel, where)
    for f in c.find("strings::StringCast", 2):
        where = "src/%s:%s" % (f["file"], f["l"])
        I = c.enter(f)
        cast(c, f, I, where)


def truth_table(c, I, name, rel, where):
    g = tobool(I.value)
    n = 0
    short = name.split("::")[-1]
    for s in strings():
        for p in strings():
            env = EV.Env(1)
            env.sem = meaning([s, p])
            try:
                got = EV.evg(g, env, {})
                for e in I.events:
                    if e.kind == "index" and e.addr.op == "addr" and e.addr.a[0][0] == "arg" and not e.loops and EV.evg(e.pc, env, {}):
                        i = int(EV.ev(e.i, env, {}, "int"))
                        t = (s, p)[e.addr.a[0][1]]
                        if not 0 <= i <= len(t) or i == len(t) and e.op in ("back", "front"):
                            raise Outside("reads character %d of a string of length %d" % (i, len(t)))
            except Outside as o:
                return c.viol(short + ":bounds", "%s(%r, %r) %s" % (short, s, p, o), where)
            except (EV.Unknown, TypeError, ValueError, KeyError, IndexError) as u:
                return c.undecided(short, where, "%s: %s" % (u, bshow(g)[:200]))
            if bool(got) != rel(s, p):
                return c.viol(short + ":value", "%s(%r, %r) is %s: the result formula is %s" % (short, s, p, got, bshow(g)[:600]), where)
            n += 1
    c.ok(short + ":value", where, "%d pairs" % n)
    c.ok(short + ":bounds", where, "%d pairs" % n)


def cast(c, f, I, where):
    s = argval(f, 0)
    endp = mk("fn", "strtofend", s)
    parsed = mk("fn", "strtof", s)
    g = tobool(I.value)
    # (text length, characters consumed, what is left of the text)
    rest = ["x", " ", "\t", "\n", "\r", "0", ".", ",", "f", "F", "L", "%", "e", "-", "+", "_", "#", "\"", ";", "u", "d", "\v", "\f"]
    cases = [(0, 0, "x"), (1, 1, "x"), (3, 3, "x")] + [(n, used, ch) for n, used in ((1, 0), (2, 1), (3, 0), (3, 1), (3, 2)) for ch in rest]
    for n, used, ch in cases:
        env = EV.Env(1)
        whole = "1" * used + ch * (n - used)

        def sem(env, k, n=n, used=used, whole=whole):
            if k[0] == "init" and k[1] == ("arg", 0):
                return Str(whole, 0)
            if k[0] == "fn" and k[1] == "strtofend":
                return Fraction(BASE + used)
            if k[0] == "begin":
                return Fraction(BASE)
            if k[0] == "addr" and (k[1] == ("arg", 0) or k[1][0] == "*" and isinstance(k[1][1], Str)):
                p = k[2]
                if not p:
                    return Fraction(BASE)
                if len(p) == 1 and p[0][0] == "[":
                    return Fraction(BASE + int(p[0][1]))
            if k[0] in ("sel", "*") or k[0] == "init" and k[1] and k[1][0] == "*":
                p = k[1][1] if k[0] == "init" else k[1]
                if isinstance(p, (int, Fraction)):
                    i = int(p) - BASE
                elif isinstance(p, Term) and p is endp:
                    i = used
                elif isinstance(p, Str) and len(k) == 4:
                    i = int(k[3])
                else:
                    raise EV.Unknown("read %r" % (k,))
                if not 0 <= i <= n:
                    raise Outside("reads character %d of a text of length %d" % (i, n))
                return Fraction(0 if i == n else ord(whole[i]))
            return None
        env.sem = sem
        try:
            got = EV.evg(g, env, {})
        except Outside as o:
            return c.viol("StringCast:bounds", "StringCast %s" % o, where)
        except (EV.Unknown, TypeError, ValueError, KeyError, IndexError) as u:
            c.undecided("StringCast", where, "%s: %s" % (u, bshow(g)[:200]))
            break
        if bool(got) != (n > 0 and used == n):
            c.viol("StringCast:value", "StringCast reports %s when the conversion used %d of the %d characters of %r: the result formula is %s" % (got, used, n, whole, bshow(g)[:400]), where)
            break
    else:
        c.ok("StringCast:value", where)
    v = I.qread(I.addr(("*", mk("sym", "arg", 1))))
    accepted = g
    ok = [x for _, x in IN.L.leaflist(v)] if hasattr(IN, "L") else [v]
    if v is parsed:
        c.ok("StringCast:stored", where)
    else:
        c.same(v, ite(accepted, parsed, v), "StringCast:stored", "the number stored by StringCast when it succeeds", where)
