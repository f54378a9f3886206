#!/usr/bin/env python3
"""Regression corpus for the checks: source variants of /repo (bugs that must be reported, refactorings
that must not).  Each tools/variants/*.py defines V = [(name, [(file, old, new), ...], {check: expected rc})].
    tools/variants.py [-j N] [name-or-check filters...]
"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = os.environ.get("BASE", "/repo")


def load():
    out = []
    for f in sorted(glob.glob(HERE + "/variants/*.py")):
        sp = importlib.util.spec_from_file_location("v", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += [(os.path.basename(f)[:-3] + ":" + n, e, x) for n, e, x in m.V]
    return out


def run(v):
    name, edits, expect = v
    d = tempfile.mkdtemp(prefix="var-")
    try:
        shutil.copytree(BASE + "/src", d + "/src")
        shutil.copytree(BASE + "/gbdt", d + "/gbdt")
        for f, old, new in edits:
            p = d + "/src/" + f
            s = open(p).read()
            if old not in s:
                return name, [("STALE", f, old[:60])]
            open(p, "w").write(s.replace(old, new, 1))
        bad = []
        for c, want in expect.items():
            r = subprocess.run([sys.executable, "-m", "sa.check", c], cwd=VERIF,
                               env=dict(os.environ, PYTHONHASHSEED="0", GBDT_REPO=d, GBDT_EVIDENCE=d), capture_output=True, text=True)
            if r.returncode != want:
                bad.append((c, "rc", r.returncode, "want", want, (r.stdout + r.stderr)[-700:]))
        return name, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 4
    if a[:1] == ["-j"]:
        j, a = int(a[1]), a[2:]
    vs = [v for v in load() if not a or any(x in v[0] or x in v[2] for x in a)]
    vs = [(n, e, {k: r for k, r in x.items() if r is not None}) for n, e, x in vs]
    if any(x.startswith("C") and x[1:].isdigit() for x in a):
        vs = [(n, e, {k: r for k, r in x.items() if k in a} or x) for n, e, x in vs]
    nbad = 0
    with ThreadPoolExecutor(j) as ex:
        for name, bad in ex.map(run, vs):
            if bad:
                nbad += 1
                print("BAD", name)
                for b in bad:
                    print("    ", *b)
    print("%d variants, %d bad" % (len(vs), nbad))
    return 1 if nbad else 0


if __name__ == "__main__":
    sys.exit(main())
