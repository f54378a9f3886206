"""C32: text rows land in the right columns or are rejected."""
import random

from ..core import *
from .c22 import run
from .c36 import Bad
from .tsvmodel import *


def check(c):
    c.rules.append("set-up of the columns, construction of a block from a file and its hand-over to the columns are summarised (line reading, splitting, trimming and number parsing abstract, "
                   "interpreted by their specification) and chained on generated files, column selections and orders: every requested column must receive exactly the values at the position of its "
                   "name in the header, missing markers as missing values; short rows, other texts in number columns and unknown columns must be refused")
    T = Tsv(c)
    T.setup()
    run(c, "rows", T.where("setup"), lambda: rows(c, T))


FIELDS = ["1.5", "-2", "0", "1e3", ".25", "?", "_", "-", "*", "nan", "NaN", "NAN"]
WRONG = ["abc", "", "1x", "N/A", "--", "1.5.2", "??", "1,5", "0x", "null", "-_"]


def request(r, names, used=None):
    """A configuration asking for some of the columns, each in one role."""
    cfg = {"float_feature": [], "additional_float_column": [], "target_column": ("str", ""), "weight_column": ("str", ""),
           "categorical_feature": [], "group_column": ("str", ""), "additional_string_column": []}
    kinds = {}
    pool = list(names)
    r.shuffle(pool)
    for n in pool:
        role = r.choice(["float_feature", "float_feature", "additional_float_column", "target_column", "weight_column", "categorical_feature", "group_column", "additional_string_column", None])
        if role is None:
            continue
        if role.endswith("_column") and not role.startswith("additional"):
            if cfg[role] != ("str", ""):
                continue
            cfg[role] = ("str", n)
        else:
            cfg[role].append(("str", n))
        kinds[n] = 0 if role == "float_feature" else 1 if role in ("additional_float_column", "target_column", "weight_column") else 2
    return cfg, kinds


def table(r, names, kinds, nrows, bad=None):
    """Rows of texts; bad: a row that is not acceptable."""
    out = []
    for i in range(nrows):
        row = []
        for n in names:
            k = kinds.get(n)
            row.append(r.choice(FIELDS) if k in (0, 1) else r.choice(["x", "y z", "1.5", "?", "a,b", "", " s "]))
        out.append(row)
    if len(names) == 1:
        for row in out:
            row[0] = row[0] or "q"
    if bad is not None and out and kinds:
        row = r.choice(out)
        if bad == "short":
            last = max(names.index(n) for n in kinds)
            del row[last:]
            if not row:
                row.append("")
        else:
            fl = [n for n in kinds if kinds[n] < 2]
            if fl:
                row[names.index(r.choice(fl))] = r.choice(WRONG)
    return out


def acceptable(rows, names, kinds):
    for row in rows:
        if row == [""]:
            continue
        for n, k in kinds.items():
            i = names.index(n)
            if i >= len(row):
                return False
            if k < 2 and number(row[i]) is None and row[i] not in MISSING:
                return False
    return True


def text(r, rows, header=None):
    ls = ([header] if header is not None else []) + ["\t".join(x) for x in rows]
    for i in range(len(ls) - (1 if header is not None else 0)):
        if r.random() < 0.1:
            ls.insert(i + (1 if header is not None else 0), "")
    end = r.choice(["\n", "\n", "\r\n"])
    return end.join(ls) + (end if r.random() < 0.7 else "")


def content(rows, names, n, k):
    """Values column n of kind k receives from rows."""
    out = []
    for row in rows:
        if row == [""]:
            continue
        s = row[names.index(n)]
        if k == 2:
            out.append(("str", s))
        else:
            v = number(s)
            out.append(EV.NANV if v is None else v)
    return out


def same(a, b):
    return len(a) == len(b) and all(x == y or x is y or isinstance(x, float) and isinstance(y, float) and x != x and y != y for x, y in zip(a, b))


def shown(vs):
    return "[%s]" % ", ".join("'%s'" % x[1] if isinstance(x, tuple) and x[0] == "str" else str(x) for x in vs)


def names_of(r):
    names = ["a", "b", "c", "d", "e"][:r.randint(1, 5)]
    r.shuffle(names)
    return names


def heading(r, names):
    return "\t".join(n if r.random() < 0.8 else r.choice([" %s", "%s "]) % n for n in names)


def rows(c, T):
    N = 800 if c.tier == "thorough" else 150
    T.read(), T.process(), T.load()
    for it in range(N):
        r = random.Random("%s/t%d" % (c.seed, it))
        names = names_of(r)
        cfg, kinds = request(r, names)
        extra = r.random() < 0.1
        if extra:
            k = r.choice(["float_feature", "additional_float_column", "categorical_feature", "additional_string_column"])
            cfg[k] = cfg[k] + [("str", "zz")]
        bad = r.choice([None, None, "short", "text"])
        rs = table(r, names, kinds, r.randint(0, 3), bad)
        good = acceptable(rs, names, kinds)
        files = {"f0": text(r, rs, heading(r, names))}
        if r.random() < 0.08:
            files["f0"] = Broken(text(r, rs, heading(r, names)).rstrip("\r\n"))
            bad, good = "broken", False
        at = "file %r%s, columns %s" % (str(files["f0"]), ", then unreadable" if bad == "broken" else "", ", ".join("%s as %s" % (n, KINDS[k][:-9]) for n, k in kinds.items()))
        code, state = T.sure("setup", at, lambda: T.do_setup("f0", cfg, files))
        if extra:
            if code == 0:
                raise Bad("unknown column", "a column that is not in the header is accepted (%s)" % at, T.where("setup"))
            continue
        if code != 0:
            raise Bad("setup", "the column set-up fails (%s)" % at, T.where("setup"))
        cols = {n[1]: p for n, p in pairs(state["column_map_"])}
        if set(cols) != set(kinds):
            raise Bad("columns", "the store holds the columns %s (%s)" % (sorted(cols), at), T.where("setup"))
        code, reads, handed, finals = T.sure("read", at, lambda: T.do_load(["f0"], cfg, files, state, 0))
        if not reads:
            raise Bad("not read", "the file is not read (%s)" % at, T.where("load"))
        block = reads[0][2]
        st = block.get("status_")
        failed = isinstance(st, tuple) and st[1] != 0
        if failed != (not good):
            raise Bad("rejected" if failed else "accepted", "the file is %s (%s)" % ("refused although every row is in order" if failed else "accepted although it cannot be read to its end" if bad == "broken" else "accepted although a row is short or holds a text in a number column", at), T.where("read"))
        if not good:
            if code == 0:
                raise Bad("accepted", "loading succeeds although a row is short or holds a text in a number column (%s)" % at, T.where("load"))
            continue
        if code != 0:
            raise Bad("fails", "loading fails although every row is in order (%s)" % at, T.where("load"))
        if len(handed) != 1 or handed[0][0] != reads[0][0]:
            raise Bad("handed", "the block of the file is handed to the columns %d times (%s)" % (len(handed), at), T.where("load"))
        got = {}
        for p, vs in T.do_process(state, block):
            got.setdefault(p, []).extend(vs)
        for n, k in kinds.items():
            want = content(rs, names, n, k)
            have = got.get(EV.hk(cols[n]), [])
            if not same(have, want):
                raise Bad("column", "column '%s' receives %s instead of %s (%s)" % (n, shown(have), shown(want), at), T.where("read"))
    return N
