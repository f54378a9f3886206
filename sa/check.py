"""python3 -m sa.check C05 [--tier thorough]"""
import importlib, os, resource, sys, threading, traceback
from . import core

MEM = {"quick": 10 << 30, "thorough": 20 << 30}     # address space of one check
TIME = {"quick": 420, "thorough": 780}              # seconds after which what is left is undecided


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.c, self.rc, self.lock = pid, tier, None, None, threading.Lock()

    def go(self):
        try:
            mod = importlib.import_module("sa.checks." + self.pid.lower())
            self.c = c = core.Check(self.pid, self.tier)
            mod.check(c)
        except core.Missing as m:
            print("%s: the analysis has lost its anchor: %s does not exist" % (self.pid, m))
            if os.environ.get("GBDT_STRICT") and (not self.c or not self.c.viols):
                self.rc = 2
                return
            self.gaveup("anchor lost: %s does not exist" % m)
        except core.frontend.FrontendError as e:
            print("%s: %s" % (self.pid, str(e)[:2000]), file=sys.stderr)
            self.rc = 3
            return
        except MemoryError:
            self.gaveup("memory budget of %d GB" % (MEM[self.tier] >> 30))
        except Exception as e:
            tb = traceback.format_exc()
            sys.stderr.write(tb[-3000:])
            self.gaveup("analysis stopped: %s: %s" % (type(e).__name__, str(e)[:200]))
        with self.lock:
            if self.rc is None:
                self.rc = self.c.finish()

    def gaveup(self, why):
        """What is not decided by now stays undecided; with nothing decided there is no answer."""
        if self.c is None:
            self.rc = 3
            return
        self.c.undecided("rest", "", why)
        if not any(o[1] != "undecided" for o in self.c.obls) and os.environ.get("GBDT_STRICT"):
            self.rc = 3


def main(argv):
    tier = "quick"
    ids = []
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        else:
            ids.append(argv[i])
            i += 1
    resource.setrlimit(resource.RLIMIT_AS, (MEM[tier], MEM[tier]))
    rc = 0
    for pid in ids:
        r = Run(pid, tier)
        t = threading.Thread(target=r.go, daemon=True)
        t.start()
        t.join(TIME[tier])
        if t.is_alive():
            with r.lock:
                if r.rc is None:
                    r.gaveup("time budget of %d s" % TIME[tier])
                    r.rc = r.rc or (r.c.finish() if r.c else 3)
            sys.stdout.flush()
            os._exit(max(rc, r.rc))
        rc = max(rc, 3 if r.rc is None else r.rc)
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
