"""Binary targets: the set of target vectors rejected by the binary losses, as a quantified formula over the target function."""
from ..core import *
from .c06 import TRAIN_OPAQUE

PTS = [Fraction(1), Fraction(1), Fraction(-1), Fraction(-1), Fraction(0), Fraction(2), Fraction(-2), Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2),
       Fraction(1001, 1000), float("nan")]


def check(c):
    c.rules.append("Init of the logistic and huberized-hinge losses: the condition for a non-OK status must be 'some row i in 0..num_rows-1 has y(i) != 1 and y(i) != -1' (bounded quantifier "
                   "over the extracted loop), with code INVALID_ARGUMENT; GetTargetsOrDie's function must be raw > 0 ? 1 : -1 when binarisation is requested and raw otherwise; "
                   "training passes that function to Init")
    for cls in ("gbdt::LogLoss", "gbdt::HuberizedHinge"):
        f = c.method(cls, "Init")
        short = cls[6:]
        where = "src/%s:%s" % (f["file"], f["l"])
        I = c.enter(f, this_type=cls)
        n, y = argval(f, 0), argval(f, 2)
        i = mk("idx", -7)
        yi = mk("icall", y, (i,))
        TYPE.setdefault(yi, "float")
        bad = band(bnot(feq(yi, ONE)), bnot(feq(yi, num(-1))))
        some = atom_exists(n, abstract(i, B(bad)))
        kw = dict(floats=PTS, ints=[0, 1, 2, 3, 4])
        c.same(bnot(code_guard(I.value, 0)), some, short + ":rejects", "target vectors rejected by %s" % cls, where, **kw)
        c.same(code_guard(I.value, 3), some, short + ":code", "target vectors %s reports as invalid argument" % cls, where, **kw)
    f = c.fn("GetTargetsOrDie")
    where = "src/%s:%s" % (f["file"], f["l"])
    I = c.enter(f, opaque={"GetRawFloatColumn": "effect"})
    cfg = argval(f, 0)
    cols = [e.ret for e in I.events if e.kind == "call" and e.fn.endswith("GetRawFloatColumn")]
    if len(cols) != 1:
        c.undecided("targets", where, "%d column look-ups" % len(cols))
    else:
        k = mk("sym", "row")
        TYPE[k] = "int"
        I.st.pc = 1
        try:
            v = L.call_values(I, I.value, [k])
        except Exception as x:
            v = None
            c.undecided("targets", where, "returned function not applicable: %s" % x)
        if v is not None:
            reads = {t for t in subterms(v) if t.op == "sel" and t.a[1][0] == "[" and t.a[1][1] is k}
            if len(reads) != 1:
                c.undecided("targets", where, show(v)[:300])
            else:
                r = reads.pop()
                TYPE.setdefault(r, "float")
                c.decide(any(t is cols[0] for t in subterms(r)), "targets:column", "the target of a row is read from %s, not from the configured column" % show(r)[:200], where)
                e = next(e for e in I.events if e.kind == "call" and e.ret is cols[0])
                c.decide(any(t is sel(cfg, (".", "target_column"), "std::string") or show(t) == "arg0.target_column" for t in e.args), "targets:name", "the target column is looked up as %s" % ", ".join(show(a) for a in e.args)[:200], loc(e))
                want = ite(atom(sel(cfg, (".", "binarize_target"), "bool")), ite(flt(ZERO, r), ONE, num(-1)), r)
                c.same(v, want, "targets:value", "the target used for a row", where, floats=PTS)
    # training passes the targets it is given, and the command line tool gives it those
    f = c.fn("TrainGBDT")
    ky = [k for k, p in enumerate(f["params"]) if "std::function" in p["t"]]
    I = c.enter(f, opaque=TRAIN_OPAQUE)
    inits = [e for e in I.events if e.kind == "call" and e.fn.endswith("::Init") and "Loss" in e.fn]
    for e in inits:
        c.decide(len(ky) < 2 or len(e.args) > 2 and e.args[2] is argval(f, ky[1]), "init target", "the loss is initialised with targets %s" % show(e.args[2])[:200], loc(e))
    if not inits:
        c.undecided("init target", "", "no call of the loss function's Init seen in TrainGBDT")
    for m in c.find("Train", 0, opt=True):
        I = c.enter(m, opaque={"!pred": lambda f: None if f.get("file") == "main.cc" else "effect"})
        got = [e.ret for e in I.events if e.kind == "call" and e.fn.endswith("GetTargetsOrDie")]
        for e in I.events:
            if e.kind == "call" and e.fn.endswith("TrainGBDT") and len(ky) > 1:
                c.decide(any(e.args[ky[1]] is g for g in got), "command line targets", "the command line tool trains on targets %s" % show(e.args[ky[1]])[:200], loc(e))
