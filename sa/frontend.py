"""Front end: parses every translation unit of /repo/src (tests excluded) with the clang based
extractor and merges the result into one program database.  Results are cached under
/verif/.cache keyed by the content of every file the parse depends on."""
import fcntl, glob, hashlib, json, os, pickle, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GBDT_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class FrontendError(Exception):
    pass


def _sources():
    src = os.path.join(REPO, "src")
    fs = []
    for d, _, names in os.walk(src):
        for n in names:
            if n.endswith((".cc", ".h", ".proto", ".cpp", ".hpp", ".inc")):
                fs.append(os.path.join(d, n))
    return sorted(fs)


def _prepare_includes(work):
    inc = os.path.join(work, "inc")
    os.makedirs(inc + "/compat/google/protobuf/stubs")
    os.makedirs(inc + "/fwd/external/cppformat")
    os.makedirs(inc + "/fwd/external/pybind11/include/pybind11")
    os.makedirs(inc + "/gen")
    s = open("/usr/include/google/protobuf/stubs/status.h").read()
    a = "  StatusCode code() const { return error_code_; }\n"
    if a not in s:
        raise FrontendError("unexpected protobuf status.h")
    s = s.replace(a, a + "  StatusCode error_code() const { return error_code_; }\n  static const Status OK;\n")
    codes = ["OK=kOk", "CANCELLED=kCancelled", "UNKNOWN=kUnknown", "INVALID_ARGUMENT=kInvalidArgument",
             "DEADLINE_EXCEEDED=kDeadlineExceeded", "NOT_FOUND=kNotFound", "ALREADY_EXISTS=kAlreadyExists",
             "PERMISSION_DENIED=kPermissionDenied", "UNAUTHENTICATED=kUnauthenticated",
             "RESOURCE_EXHAUSTED=kResourceExhausted", "FAILED_PRECONDITION=kFailedPrecondition",
             "ABORTED=kAborted", "OUT_OF_RANGE=kOutOfRange", "UNIMPLEMENTED=kUnimplemented",
             "INTERNAL=kInternal", "UNAVAILABLE=kUnavailable", "DATA_LOSS=kDataLoss"]
    c = "namespace error {\n" + "".join("constexpr StatusCode %s = StatusCode::%s;\n" % tuple(x.split("=")) for x in codes) + "}\n"
    s = s.replace("}  // namespace util\n", c + "}  // namespace util\n")
    open(inc + "/compat/google/protobuf/stubs/status.h", "w").write(s)
    open(inc + "/fwd/external/cppformat/format.h", "w").write("#pragma once\n#include <fmt/format.h>\n")
    for n in ("pybind11", "stl"):
        open(inc + "/fwd/external/pybind11/include/pybind11/%s.h" % n, "w").write("#pragma once\n#include <pybind11/%s.h>\n" % n)
    protos = sorted(glob.glob(REPO + "/src/proto/*.proto"))
    r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + inc + "/gen"] + protos, capture_output=True, text=True)
    if r.returncode:
        raise FrontendError("protoc: " + r.stderr)
    return inc


def _pyinc():
    for p in sorted(glob.glob("/usr/include/python3.*")):
        if os.path.exists(p + "/Python.h"):
            return p
    return "/usr/include/python3.12"


def load():
    """Returns the merged program database for REPO's current working tree."""
    os.makedirs(CACHE, exist_ok=True)
    b = subprocess.run([VERIF + "/extractor/build.sh"], capture_output=True, text=True)
    if b.returncode:
        raise FrontendError("extractor build failed:\n" + b.stdout + b.stderr)
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "extractor", "extract.cc"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for f in _sources():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    key = h.hexdigest()[:24]
    out = os.path.join(CACHE, "db-%s.pickle" % key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            try:
                return pickle.load(open(out, "rb"))
            except Exception:
                pass
        db = _extract()
        for old in sorted(glob.glob(os.path.join(CACHE, "db-*.pickle")), key=os.path.getmtime)[:-24]:
            os.unlink(old)
        tmp = out + ".tmp%d" % os.getpid()
        pickle.dump(db, open(tmp, "wb"), protocol=4)
        os.replace(tmp, out)
        return db


def _closure(f):
    """The file and everything of src/ it includes, transitively (over-approximated by base name)."""
    by = {}
    for g in _sources():
        by.setdefault(os.path.basename(g), []).append(g)
    seen, todo = {f}, [f]
    while todo:
        for m in re.findall(rb'#\s*include\s*["<]([^">]+)[">]', open(todo.pop(), "rb").read()):
            for g in by.get(os.path.basename(m.decode("utf8", "replace")), []):
                if g not in seen:
                    seen.add(g)
                    todo.append(g)
    return sorted(seen)


def _extract():
    work = os.path.join(CACHE, "work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        inc = _prepare_includes(work)
        tus = [f for f in _sources() if f.endswith(".cc") and not f.endswith("_test.cc")]
        flags = ["-std=gnu++14", "-DNDEBUG", "-O0", "-fsyntax-only", "-Wno-everything", "-ferror-limit=5",
                 "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
                 "-I" + inc + "/compat", "-I" + inc + "/fwd", "-I" + REPO, "-I" + inc + "/gen",
                 "-isystem", _pyinc()]
        tool = os.path.join(CACHE, "extract")

        base = hashlib.sha256(open(os.path.join(VERIF, "extractor", "extract.cc"), "rb").read() + open(os.path.abspath(__file__), "rb").read() + REPO.encode() * 0)
        for f in _sources():
            if f.endswith(".proto"):
                base.update(open(f, "rb").read())
        tuc = os.path.join(CACHE, "tu")
        os.makedirs(tuc, exist_ok=True)
        for old in sorted(glob.glob(tuc + "/*"), key=os.path.getmtime)[:-400]:
            try:
                os.unlink(old)
            except OSError:
                pass

        def one(i_f):
            i, f = i_f
            h = base.copy()
            for g in _closure(f):
                h.update(os.path.relpath(g, REPO).encode() + b"\0" + open(g, "rb").read() + b"\0")
            cp = os.path.join(tuc, h.hexdigest()[:24])
            try:
                r = pickle.load(open(cp, "rb"))
                os.utime(cp)
                return f, r, ""
            except Exception:
                pass
            f, d, err = parse(i, f)
            if d is not None:
                tmp = cp + ".tmp%d" % os.getpid()
                pickle.dump(d, open(tmp, "wb"), protocol=4)
                os.replace(tmp, cp)
            return f, d, err

        def parse(i, f):
            o = os.path.join(work, "tu%d.json" % i)
            r = subprocess.run([tool, REPO + "/src/", o, f, "--"] + flags, capture_output=True, text=True)
            if r.returncode or not os.path.exists(o):
                return f, None, r.stderr[-3000:]
            return f, json.load(open(o)), ""
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(tus)))
        db = {"fns": {}, "recs": {}, "globals": {}, "enums": {}, "tus": [os.path.relpath(f, REPO) for f in tus], "repo": REPO}
        for f, d, err in res:
            if d is None:
                raise FrontendError("cannot parse %s:\n%s" % (f, err))
            for k in ("fns", "recs", "globals", "enums"):
                for n, v in d[k].items():
                    old = db[k].get(n)
                    if old is None or (k == "globals" and not old.get("def") and v.get("def")):
                        db[k][n] = v
        return db
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    d = load()
    print({k: len(v) for k, v in d.items() if k != "repo"}, "%.1fs" % (time.time() - t))
