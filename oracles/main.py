"""Run one oracle: main.py PROP TIER SEED SECONDS OUT.json   or   main.py PROP --replay FILE

OUT.json: {"evaluations", "distinct", "samples", "violation": null | {"case", "message"}, "known": [...]}
"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("VERIF_TARGET", "/repo/framework_python"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def check_one(mod, case, limit=25):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        return mod.check(case)
    except CaseTimeout:
        return "no result within %d s (endless loop)" % limit
    except RecursionError as e:
        return "RecursionError: %s" % e
    except Exception as e:
        if type(e).__name__ == "Fail":
            return str(e)
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/rei/" in f.filename]
        loc = "%s:%d in %s" % (where[-1].filename.split("/rei/")[-1], where[-1].lineno, where[-1].name) if where \
            else "%s:%d" % (tb[-1].filename, tb[-1].lineno)
        if not where:
            return "unexpected %s: %s (%s)" % (type(e).__name__, e, loc)
        return "unexpected %s: %s (raised in %s)" % (type(e).__name__, e, loc)
    finally:
        signal.alarm(0)
        sys.stdout = old
        devnull.close()


def main():
    prop = sys.argv[1].lower()
    if sys.argv[2] == "--replay":
        data = json.load(open(sys.argv[3]))
        try:
            mod = importlib.import_module(prop)
        except Exception as e:
            print("the code under test cannot be imported: %s: %s" % (type(e).__name__, e))
            return 1
        msg = check_one(mod, data["case"])
        print("violated: " + msg if msg else "holds")
        return 1 if msg else 0
    tier, seed, secs, out = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    res = {"evaluations": 0, "distinct": 0, "samples": [], "violation": None, "known": [], "import_error": None}
    try:
        mod = importlib.import_module(prop)
    except Exception as e:
        res["import_error"] = "%s: %s" % (type(e).__name__, e)
        res["violation"] = {"case": {"import": True}, "message": "the code under test cannot be imported: %s: %s" % (
            type(e).__name__, e)}
        json.dump(res, open(out, "w"))
        return 0
    rng = random.Random(seed)
    seen = set()
    for case in mod.cases(rng, tier):
        if time.time() - t0 > secs:
            res["stopped"] = "time"
            break
        key = json.dumps(case, sort_keys=True)
        res["evaluations"] += 1
        if key in seen:
            continue
        seen.add(key)
        if len(res["samples"]) < 2 and res["evaluations"] in (1, 40):
            res["samples"].append(case)
        msg = check_one(mod, case)
        if msg:
            try:
                if hasattr(mod, "shrink"):
                    small = mod.shrink(case)
                    m2 = check_one(mod, small)
                    if m2:
                        case, msg = small, m2
            except BaseException:
                pass
            res["violation"] = {"case": case, "message": msg}
            break
    if hasattr(mod, "known"):
        res["known"] = mod.known()
    res["distinct"] = len(seen)
    res["wall_s"] = time.time() - t0
    json.dump(res, open(out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
