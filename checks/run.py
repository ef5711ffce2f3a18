"""usage: run.py PROPERTY    (environment: VERIF_SEED, VERIF_TIER)"""
import sys, os, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import common


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        common.TIER = sys.argv[2]
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    try:
        ck = common.Check(pid, getattr(mod, "LEVEL", "other"))
        mod.run(ck)
        return ck.finish()
    except common.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except common.CompileError as e:
        print("ANALYSIS-BROKEN property=%s driver does not compile:\n%s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


sys.exit(main())
