import importlib, os, sys, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
import resource
try:
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
except Exception:
    pass
import core


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    rep = core.Report(pid, tier)
    rc = 1
    try:
        import load
        prog = load.load()
        mod = importlib.import_module("checks." + pid.lower())
        mod.check(prog, rep)
    except Exception:
        tb = traceback.format_exc()
        print(tb)
        rep.violation("undecided", "the analysis could not be completed on this tree (an anchor of the rule is gone): " + tb.strip().splitlines()[-1])
    rc = core.finish(rep)
    sys.stdout.flush()
    os._exit(rc)


threading.stack_size(1 << 29)
t = threading.Thread(target=main)
t.start()
t.join()
